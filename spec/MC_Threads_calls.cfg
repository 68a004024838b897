CONSTANTS
  Thread = {0, 1, 2, 3}
  Obj = {0, 1}
  Scratch = "own"
  MaxVal = 2
SPECIFICATION Spec
INVARIANTS TypeOK
VIEW Calls
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

CONSTANTS
  Obj = {1, 2}
  MaxVec = 5
  Widths = {5, 14}
  MaxBits = 14
  MaxNb = 2
SPECIFICATION MCSpec
VIEW MCView
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS FaultOK
PROPERTIES Undamaged
CHECK_DEADLOCK FALSE

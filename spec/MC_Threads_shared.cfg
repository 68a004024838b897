CONSTANTS
  Thread = {0, 1}
  Obj = {0, 1}
  Scratch = "shared"
  MaxVal = 2
SPECIFICATION Spec
INVARIANTS NoRace

CHECK_DEADLOCK FALSE

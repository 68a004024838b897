CONSTANTS
  Obj = {1, 2}
  N = 3
SPECIFICATION MCSpec
VIEW MCView
ACTION_CONSTRAINT Emitted
INVARIANTS FlagsOK Laws
PROPERTIES Frame
CHECK_DEADLOCK FALSE

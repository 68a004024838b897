CONSTANTS
  Bytes = {0, 97, 127, 128, 255}
  MaxLen = 3
SPECIFICATION MCSpec
VIEW MCView
ACTION_CONSTRAINT Emitted
INVARIANTS Refines
CHECK_DEADLOCK FALSE

CONSTANTS
  Obj = {1, 2}
  Vals = {1, 2}
  Moved = 0
SPECIFICATION MCSpec
VIEW MCView
ACTION_CONSTRAINT Emitted
INVARIANT ResultType
PROPERTIES Sticky Frame
CHECK_DEADLOCK FALSE

CONSTANTS
  Obj = {1, 2, 3}
  Unused = 0
  Vals = {1, 2}
  Places = {1, 2, 3}
  Inline = TRUE
  Moved = 0
SPECIFICATION MCSpec
VIEW MCView
ACTION_CONSTRAINT Emitted
INVARIANT PimplOK
PROPERTIES Independent
CHECK_DEADLOCK FALSE

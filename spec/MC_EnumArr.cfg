CONSTANTS
  Obj = {1, 2}
  Its = {1, 2}
  N = 2
  Vals = {0, 1}
SPECIFICATION MCSpec
VIEW MCView
ACTION_CONSTRAINT Emitted
INVARIANT EnumOK
PROPERTIES OneElement Inert
CHECK_DEADLOCK FALSE

CONSTANTS
  Obj = {1, 2}
  Top = 3
SPECIFICATION MCSpec
VIEW MCView
ACTION_CONSTRAINT Emitted
INVARIANT Laws
CHECK_DEADLOCK FALSE

CONSTANTS
  Obj = {1, 2, 3}
  MaxIds = 3
SPECIFICATION MCSpec
VIEW MCView
ACTION_CONSTRAINT Emitted
INVARIANT ExactlyOnce
CHECK_DEADLOCK FALSE

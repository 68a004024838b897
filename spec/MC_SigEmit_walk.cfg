CONSTANTS
  Hnds = {1, 2, 3}
  MaxIds = 3
SPECIFICATION MCSpec
VIEW MCView
ACTION_CONSTRAINT Emitted
INVARIANTS NoDup InRange
PROPERTIES Refines
CHECK_DEADLOCK FALSE

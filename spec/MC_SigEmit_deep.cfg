CONSTANTS
  Hnds = {1, 2, 3}
  MaxIds = 5
SPECIFICATION MCSpec
VIEW MCView
INVARIANTS NoDup InRange
PROPERTIES Refines
CHECK_DEADLOCK FALSE

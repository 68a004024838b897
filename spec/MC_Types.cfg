CONSTANTS
  Steps = 2
  Pair = FALSE
SPECIFICATION Spec
INVARIANTS WellFormed Laws
ACTION_CONSTRAINT Emitted
CHECK_DEADLOCK FALSE

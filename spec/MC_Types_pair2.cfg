CONSTANTS
  Steps = 2
  Pair = TRUE
SPECIFICATION Spec
INVARIANTS WellFormed Laws Injective
CHECK_DEADLOCK FALSE

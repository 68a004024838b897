CONSTANTS
  Wd = 4
  Sg = TRUE
  Emit = TRUE
SPECIFICATION Spec
ACTION_CONSTRAINT Emitted
INVARIANTS Characterised
CHECK_DEADLOCK FALSE

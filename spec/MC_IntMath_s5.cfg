CONSTANTS
  Wd = 5
  Sg = TRUE
  Emit = FALSE
SPECIFICATION Spec
ACTION_CONSTRAINT Emitted
INVARIANTS Characterised
CHECK_DEADLOCK FALSE

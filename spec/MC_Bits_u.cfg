CONSTANTS
  MW = 8
  Byte = 8
  Signed = FALSE
  Emit = TRUE
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emitted
INVARIANTS Laws
CHECK_DEADLOCK FALSE

CONSTANTS
  MW = 12
  Byte = 4
  Signed = TRUE
  Emit = FALSE
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emitted
INVARIANTS Laws
CHECK_DEADLOCK FALSE

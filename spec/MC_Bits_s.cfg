CONSTANTS
  MW = 8
  Byte = 8
  Signed = TRUE
  Emit = TRUE
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emitted
INVARIANTS Laws
CHECK_DEADLOCK FALSE

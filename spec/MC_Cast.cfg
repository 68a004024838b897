CONSTANTS
  Floats = FALSE
SPECIFICATION Spec
INVARIANTS TypeOK ValueKept Exact
PROPERTIES NeverWrong
ACTION_CONSTRAINT Emitted
CHECK_DEADLOCK FALSE

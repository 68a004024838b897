CONSTANTS
  Obj = {1, 2, 3}
  Raw <- RawValue
SPECIFICATION TSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

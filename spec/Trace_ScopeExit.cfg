CONSTANTS
  Obj = {1, 2, 3, 4}
SPECIFICATION TSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

CONSTANTS
  Obj = {1, 2, 3}
  Unused = 0
SPECIFICATION TSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

CONSTANTS
  Obj = {1, 2, 3}
  Inf = 1000000
SPECIFICATION TSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

CONSTANTS
  Obj = {1, 2, 3}
  Left <- LeftValue
SPECIFICATION TSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

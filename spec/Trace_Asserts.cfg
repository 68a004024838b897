SPECIFICATION TSpec
CONSTANTS Cond = {1, 2, 3}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

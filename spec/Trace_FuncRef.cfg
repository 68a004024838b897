SPECIFICATION TSpec
CONSTANTS Nar = {0, 1, 2}
 Wid = {3, 4}
 Vod = {5, 6}
 Call = {0, 1, 2, 3, 4, 5, 6}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

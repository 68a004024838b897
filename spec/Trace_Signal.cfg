CONSTANTS
  Sigs = {1, 2, 3}
  Hnds = {1, 2, 3, 4, 5}
  Grds = {1, 2, 3}
SPECIFICATION TSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

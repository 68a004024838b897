SPECIFICATION TSpec
CONSTANTS Field = {0, 1, 2, 3, 4, 5}
 Key = {0, 1, 2, 3, 4, 5}
 BSlot = {0, 1}
 DSlot = {2, 3}
 Cell = {0, 1, 2}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

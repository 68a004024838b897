SPECIFICATION Spec
CONSTANTS Field = {}
 Key = {}
 BSlot = {0, 1}
 DSlot = {2, 3}
 Cell = {}
 Val = {0, 1}
 Most = 3
VIEW View
INVARIANTS Owned OneEntry
PROPERTY Frame
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

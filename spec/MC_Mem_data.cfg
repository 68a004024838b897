SPECIFICATION Spec
CONSTANTS Field = {0, 1, 2}
 Key = {0, 1}
 BSlot = {0, 1}
 DSlot = {2, 3}
 Cell = {0, 1}
 Val = {0, 1}
 Most = 0
VIEW View
INVARIANTS Owned OneEntry
PROPERTY Frame
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

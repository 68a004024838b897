SPECIFICATION Spec
CONSTANTS Header = {1, 2, 3, 4}
 Unit = {1, 2}
 Needs <- Graph
 MaxLen = 3
VIEW View
INVARIANTS OnlyTheSet Once NeedsFirst
PROPERTY Apart
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

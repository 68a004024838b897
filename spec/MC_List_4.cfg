SPECIFICATION Spec
CONSTANTS N = 4
 K = 3
VIEW View
INVARIANT Laws
PROPERTIES QueriesKeep Shape
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Cps = {46, 47, 233}
 N = 3
 Pmax = 4
VIEW View
INVARIANT Laws
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

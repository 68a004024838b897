SPECIFICATION Spec
CONSTANTS Cps = {0, 47, 127, 128, 2047, 2048, 55295, 57344, 65535, 65536, 1114111}
 N = 3
 Pmax = 0
VIEW View
INVARIANT Laws
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

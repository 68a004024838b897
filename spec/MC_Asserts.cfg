SPECIFICATION Spec
CONSTANTS Cond = {1, 2, 3}
INVARIANTS Agree Transparent Absent Last NoArgs
PROPERTY Ends
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

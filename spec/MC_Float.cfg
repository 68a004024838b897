SPECIFICATION Spec
INVARIANTS RoundIsNearest Integral Arithmetic
PROPERTIES Monotone
CHECK_DEADLOCK FALSE

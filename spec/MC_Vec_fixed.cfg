CONSTANTS
  Obj = {1, 2}
  Inf = 1000000
  L = 3
  Vals = {1, 2}
  Inline = 2
  KindOf = "fixed"
SPECIFICATION MCSpec
VIEW MCView
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS VecType Laws
PROPERTIES Frame Transfer
CHECK_DEADLOCK FALSE

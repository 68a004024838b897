CONSTANTS
  Obj = {1, 2}
  Raw = 9
  MaxBlocks = 2
  Sizes = {1, 2}
SPECIFICATION MCSpec
VIEW MCView
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS PoolOK Counts
PROPERTIES Stable Growth
CHECK_DEADLOCK FALSE

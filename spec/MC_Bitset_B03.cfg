CONSTANTS
  Obj = {1, 2}
  L = 3
  Props = {"B03"}
SPECIFICATION MCSpec
VIEW MCView
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Laws PairLaws
PROPERTY Frame
CHECK_DEADLOCK FALSE

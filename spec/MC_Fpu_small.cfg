CONSTANTS
  Mode = "small"
  Steps0 = 1
SPECIFICATION Spec
INVARIANTS Representable ModLaw ClampLaw ApproachLaw EqualLaw LerpLaw
CHECK_DEADLOCK FALSE

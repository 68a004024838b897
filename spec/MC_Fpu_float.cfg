CONSTANTS
  Mode = "float"
  Steps0 = 1
SPECIFICATION Spec
INVARIANTS Representable ModLaw ClampLaw ApproachLaw EqualLaw AngleLaw
ACTION_CONSTRAINT Emitted
CHECK_DEADLOCK FALSE

CONSTANTS
  Obj = {1, 2}
  Left = 9
  Vals = {1, 2, 3}
  Kind = "value"
  Zero = 0
SPECIFICATION MCSpec
VIEW MCView
ACTION_CONSTRAINT Emitted
PROPERTIES Conserve SourceKept
CHECK_DEADLOCK FALSE

CONSTANTS
  Sigs = {1, 2}
  Hnds = {1, 2}
  Grds = {1, 2}
  MaxIds = 3
SPECIFICATION MCSpec
VIEW MCView
INVARIANTS SigType Agree
PROPERTIES Entitled NoRevival SelfKeeps
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Nar = {0, 1}
 Wid = {3}
 Vod = {5}
 Call = {0, 4, 6}
 Amax = 1
VIEW View
INVARIANT TypeOK
PROPERTIES CallsTarget Independent Agree Follows
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Parts = {"day"}
 LastDay = 40000
 Values = {0}
 Extra = {0}
INVARIANTS DayOk
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Parts = {"object"}
 LastDay = 0
 Values = {0, 255}
 Extra = {8}
INVARIANTS ObjectOk
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Parts = {"object"}
 LastDay = 0
 Values = {0, 1, 2, 3, 5, 40, 72, 76, 80, 127, 128, 255}
 Extra = {0, 1, 8, 24}
INVARIANTS ObjectOk
CHECK_DEADLOCK FALSE

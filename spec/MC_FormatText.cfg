SPECIFICATION Spec
CONSTANTS Parts = {"text"}
 LastDay = 0
 Values = {0}
 Extra = {0}
INVARIANTS TextOk
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
CONSTANTS Max = 2
 ObjKinds = {"sup", "unk"}
 CutKinds = {"no", "sig1", "sig3", "sig4", "h15", "h16", "h17", "body", "last"}
 GapKinds = {"z1", "partial3", "false"}
 FaultKinds = {}
 Methods = {"s", "z"}
 Random = FALSE
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
CONSTANTS Max = 9
 ObjKinds = {"sup", "text", "nosup", "unk", "hdronly", "big"}
 CutKinds = {"no", "sig1", "sig2", "sig3", "sig4", "h8", "h15", "h16", "h17", "body", "last", "multi"}
 GapKinds = {"z1", "z3", "z7", "z40", "ff", "rnd", "partial1", "partial2", "partial3", "false0", "false4", "false", "false15", "logg"}
 FaultKinds = {}
 Methods = {"s", "z"}
 Random = TRUE
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
CONSTANTS Max = 3
 ObjKinds = {"sup", "unk"}
 CutKinds = {"no", "body"}
 GapKinds = {"z3"}
 FaultKinds = {"zcorrupt", "ztrunc", "zempty", "zsum", "cshort", "oshort", "oenum", "otext", "outf8", "oshort0"}
 Methods = {"s", "z"}
 Random = FALSE
CHECK_DEADLOCK FALSE

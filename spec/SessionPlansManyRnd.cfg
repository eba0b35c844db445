SPECIFICATION Spec
CONSTANTS NR = 3
 NW = 3
 Max = 26
 MaxIter = 2
 ReadOps = {"read", "next", "new", "for", "list", "close", "drop"}
 WriteOps = {"write", "bad", "fail", "wclose", "wdrop"}
 FileSet = {3, 4, 5, 6, 7, 8, 9}
 Random = TRUE
 Emit = TRUE

CHECK_DEADLOCK FALSE

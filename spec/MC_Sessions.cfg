SPECIFICATION Spec
CONSTANTS NR = 2
 NW = 2
 Max = 0
 MaxIter = 1
 ReadOps = {"read", "next", "new", "for", "list", "close", "drop"}
 WriteOps = {"write", "bad", "wclose", "wdrop"}
 FileSet = {1, 3, 7}
 Random = FALSE
 Emit = FALSE
CONSTRAINT Bound
PROPERTIES Independent Forever
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS NR = 1
 NW = 0
 Max = 16
 MaxIter = 3
 ReadOps = {"read", "next", "new", "for", "list"}
 WriteOps = {}
 FileSet = {1, 2, 3, 4, 5, 6}
 Random = TRUE
 Emit = TRUE

CHECK_DEADLOCK FALSE

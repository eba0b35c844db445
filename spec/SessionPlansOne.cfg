SPECIFICATION Spec
CONSTANTS NR = 1
 NW = 0
 Max = 6
 MaxIter = 2
 ReadOps = {"read", "next", "new", "for", "list"}
 WriteOps = {}
 FileSet = {1, 2, 3}
 Random = FALSE
 Emit = TRUE

CHECK_DEADLOCK FALSE

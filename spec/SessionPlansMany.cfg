SPECIFICATION Spec
CONSTANTS NR = 2
 NW = 1
 Max = 5
 MaxIter = 1
 ReadOps = {"read", "drop"}
 WriteOps = {"write", "bad", "fail", "wclose"}
 FileSet = {4, 9}
 Random = FALSE
 Emit = TRUE

CHECK_DEADLOCK FALSE

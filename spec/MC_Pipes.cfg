SPECIFICATION Spec
CONSTANTS NR = 1
 NW = 1
 NS = 1
 Sources <- SrcOne
 Max = 0
 MaxHand = 2
 MaxFiles = 3
 MaxLog = 3
 Edits = 1
 Random = FALSE
 Emit = FALSE
PROPERTIES FilesStand WritersGrow
INVARIANT NothingInvented
CHECK_DEADLOCK FALSE

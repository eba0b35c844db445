SPECIFICATION Spec
CONSTANTS NR = 2
 NW = 2
 NS = 1
 Sources <- SrcTwo
 Max = 0
 MaxHand = 2
 MaxFiles = 3
 MaxLog = 2
 Edits = 1
 Random = FALSE
 Emit = FALSE
PROPERTIES FilesStand WritersGrow
INVARIANT NothingInvented
CHECK_DEADLOCK FALSE

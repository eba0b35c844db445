SPECIFICATION Spec
CONSTANTS NR = 1
 NW = 1
 NS = 1
 Sources <- SrcTwo
 Max = 8
 MaxHand = 2
 MaxFiles = 4
 MaxLog = 4
 Edits = 1
 Random = FALSE
 Emit = TRUE
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS NR = 2
 NW = 2
 NS = 3
 Sources <- SrcMany
 Max = 36
 MaxHand = 12
 MaxFiles = 12
 MaxLog = 16
 Edits = 4
 Random = TRUE
 Emit = TRUE
CHECK_DEADLOCK FALSE

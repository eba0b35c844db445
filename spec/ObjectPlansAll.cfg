SPECIFICATION Spec
CONSTANTS Kinds = {"dec", "read", "new"}
 Sources = {1, 2}
 Parts = 1
 MaxObj = 3
 Fresh = TRUE
 Max = 5
 Emit = TRUE
 Random = FALSE
CHECK_DEADLOCK FALSE

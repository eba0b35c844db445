SPECIFICATION Spec
CONSTANTS Kinds = {"dec", "read", "other", "new", "stat", "time"}
 Sources = {1, 2, 3}
 Parts = 2
 MaxObj = 7
 Fresh = TRUE
 Max = 14
 Emit = TRUE
 Random = TRUE
CHECK_DEADLOCK FALSE

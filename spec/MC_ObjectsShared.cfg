SPECIFICATION Spec
CONSTANTS Kinds = {"dec"}
 Sources = {1, 2}
 Parts = 2
 MaxObj = 3
 Fresh = FALSE
 Max = 0
 Emit = FALSE
 Random = FALSE
INVARIANT Independent
CHECK_DEADLOCK FALSE

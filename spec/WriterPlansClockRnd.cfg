INIT Init
NEXT Next
CONSTANTS Max = 8
 Sizes = {"min", "s", "odd", "eq", "m1", "p1", "half", "dbl", "tri", "big", "al"}
 Bads = {"plus", "range"}
 Muts = {}
 Ticks = {"ms", "fwd", "back", "day", "dayback", "year", "leap", "dst", "epoch", "far", "zone"}
 FailAt = {0}
 Ends = {"close", "exit"}
 Late = FALSE
 Random = TRUE
CONSTRAINT FewFailures
CHECK_DEADLOCK FALSE

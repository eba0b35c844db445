INIT Init
NEXT Next
CONSTANTS Max = 7
 Sizes = {"min", "s", "odd", "eq", "m1", "p1", "half", "dbl", "tri", "big", "al"}
 Bads = {}
 Muts = {}
 Ticks = {}
 FailAt = {0}
 Ends = {"close", "exit", "exc"}
 Late = TRUE
 Random = TRUE
CONSTRAINT FewFailures
CHECK_DEADLOCK FALSE

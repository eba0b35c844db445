INIT Init
NEXT Next
CONSTANTS Max = 8
 Sizes = {"min", "s", "odd", "eq", "m1", "p1", "half", "dbl", "tri", "big", "al"}
 Bads = {}
 Muts = {"all"}
 Ticks = {}
 FailAt = {0}
 Ends = {"close", "exit", "exc"}
 Late = FALSE
 Random = TRUE
CONSTRAINT FewFailures
CHECK_DEADLOCK FALSE

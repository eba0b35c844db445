INIT Init
NEXT Next
CONSTANTS Max = 24
 Sizes = {"min", "few", "many", "frac", "half", "m1", "eq", "p1", "dbl", "tri", "big", "any"}
 Bads = {"plus", "minus", "range", "raise", "short"}
 Muts = {"all"}
 Ticks = {}
 FailAt = {0}
 Ends = {"close", "exit", "exc"}
 Late = TRUE
 Random = TRUE
CONSTRAINT FewFailures
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
CONSTANTS Max = 8
 Sizes = {"min", "s", "odd", "eq", "m1", "p1", "half", "dbl", "tri", "big", "al"}
 Bads = {"plus", "plus8", "minus", "zero", "range", "text", "type", "raise", "short"}
 Muts = {}
 Ticks = {}
 FailAt = {0}
 Ends = {"close", "exit", "exc"}
 Late = FALSE
 Random = TRUE
CONSTRAINT FewFailures
CHECK_DEADLOCK FALSE

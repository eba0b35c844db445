INIT Init
NEXT Next
CONSTANTS Max = 3
 Sizes = {"min", "odd", "eq", "p1", "tri"}
 Bads = {}
 Muts = {}
 Ticks = {}
 FailAt = {0}
 Ends = {"close", "exit", "exc"}
 Late = TRUE
 Random = FALSE
CONSTRAINT FewFailures
CHECK_DEADLOCK FALSE

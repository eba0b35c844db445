INIT Init
NEXT Next
CONSTANTS Max = 3
 Sizes = {"min", "odd", "p1", "tri"}
 Bads = {}
 Muts = {}
 Ticks = {}
 FailAt = {0, 1, 2, 3, 4}
 Ends = {"close"}
 Late = FALSE
 Random = FALSE
CONSTRAINT FewFailures
CHECK_DEADLOCK FALSE

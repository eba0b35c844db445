INIT Init
NEXT Next
CONSTANTS Max = 4
 Sizes = {"odd", "eq", "tri"}
 Bads = {}
 Muts = {"all"}
 Ticks = {}
 FailAt = {0}
 Ends = {"close"}
 Late = FALSE
 Random = FALSE
CONSTRAINT FewFailures
CHECK_DEADLOCK FALSE

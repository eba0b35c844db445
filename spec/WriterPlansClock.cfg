INIT Init
NEXT Next
CONSTANTS Max = 4
 Sizes = {"odd", "tri"}
 Bads = {}
 Muts = {}
 Ticks = {"fwd", "back", "year", "zone"}
 FailAt = {0}
 Ends = {"close"}
 Late = FALSE
 Random = FALSE
CONSTRAINT FewFailures
CHECK_DEADLOCK FALSE

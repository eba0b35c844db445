INIT Init
NEXT Next
CONSTANTS Max = 3
 Sizes = {"min", "odd", "p1", "tri"}
 Bads = {"plus", "minus", "range", "text", "raise"}
 Muts = {}
 Ticks = {}
 FailAt = {0}
 Ends = {"close", "exc"}
 Late = FALSE
 Random = FALSE
CONSTRAINT FewFailures
CHECK_DEADLOCK FALSE

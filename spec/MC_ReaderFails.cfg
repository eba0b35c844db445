SPECIFICATION Spec
CONSTANTS Alphabet = {0, 1, 2, 3}
 MaxLen = 2
 MaxTok = 3
 MaxParts = 3
 Cuts = FALSE
 FastSkip = TRUE
 Fails = TRUE
INVARIANTS FailsWell Prefixes Progress NoContainer
CHECK_DEADLOCK FALSE

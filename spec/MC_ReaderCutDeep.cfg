SPECIFICATION Spec
CONSTANTS Alphabet = {0, 1, 2, 3}
 MaxLen = 4
 MaxTok = 3
 MaxParts = 3
 Cuts = TRUE
 FastSkip = TRUE
 Fails = FALSE
INVARIANTS Faithful Prefixes Progress NoContainer
CHECK_DEADLOCK FALSE

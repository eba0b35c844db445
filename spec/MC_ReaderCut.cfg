SPECIFICATION Spec
CONSTANTS Alphabet = {0, 1, 2, 3}
 MaxLen = 2
 MaxTok = 2
 MaxParts = 2
 Cuts = TRUE
 FastSkip = TRUE
 Fails = FALSE
INVARIANTS Faithful Prefixes Progress NoContainer
CHECK_DEADLOCK FALSE

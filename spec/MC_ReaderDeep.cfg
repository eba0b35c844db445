SPECIFICATION Spec
CONSTANTS Alphabet = {0, 1, 2, 3, 4}
 MaxLen = 6
 MaxTok = 4
 MaxParts = 3
 Cuts = FALSE
 FastSkip = FALSE
 Fails = FALSE
INVARIANTS Faithful Prefixes Progress NoContainer
CHECK_DEADLOCK FALSE

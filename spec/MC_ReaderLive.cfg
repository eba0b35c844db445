SPECIFICATION Spec
CONSTANTS Alphabet = {0, 1, 2, 3}
 MaxLen = 2
 MaxTok = 2
 MaxParts = 2
 Cuts = FALSE
 FastSkip = FALSE
 Fails = FALSE
INVARIANTS Faithful Prefixes Progress NoContainer
PROPERTY Terminates
INVARIANT Deterministic
CHECK_DEADLOCK FALSE

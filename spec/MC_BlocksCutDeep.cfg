SPECIFICATION Spec
CONSTANTS MaxBlocks = 2
 MaxFile = 1
INVARIANTS Agree Ahead BOnly Held
PROPERTY Needed
CHECK_DEADLOCK FALSE

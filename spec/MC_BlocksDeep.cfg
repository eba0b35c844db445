SPECIFICATION Spec
CONSTANTS MaxBlocks = 3
 MaxFile = 0
INVARIANTS Agree Ahead BOnly Held
PROPERTY Needed
CHECK_DEADLOCK FALSE

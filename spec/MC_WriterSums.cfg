SPECIFICATION Spec
CONSTANTS
  BAlign = 3
  MObjects = 2
  MSizes = {1, 2, 5}
  MCaps = {1, 3, 7}
  MFailures = 1
INVARIANTS SumsHold Conserved AllStored
PROPERTY Refines
CHECK_DEADLOCK FALSE

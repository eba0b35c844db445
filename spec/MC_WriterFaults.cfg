SPECIFICATION Spec
CONSTANTS
  BufSizes = {1, 3, 4, 5, 8}
  Sizes = {4, 7}
  MaxObj = 2
  MaxFaults = 3
  MaxRefuse = 1
INVARIANTS WhatWasWritten HeaderTrue Framed Recoverable Bounded Once AckKept Conserved HeldBack Pending AllStored
PROPERTIES Refines RefinesBlocks LogMonotone LogFinal CloseEnds
CHECK_DEADLOCK FALSE

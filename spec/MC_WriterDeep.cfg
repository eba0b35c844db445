SPECIFICATION Spec
CONSTANTS
  BufSizes = {1, 2, 3, 4, 5, 6, 7, 8, 9, 12}
  Sizes = {4, 5, 7}
  MaxObj = 3
  MaxFaults = 1
  MaxRefuse = 1
INVARIANTS WhatWasWritten HeaderTrue Framed Recoverable Bounded Once AckKept Conserved HeldBack Pending AllStored
PROPERTIES Refines RefinesBlocks LogMonotone LogFinal CloseEnds
CHECK_DEADLOCK FALSE

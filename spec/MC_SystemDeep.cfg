SPECIFICATION SSpec
CONSTANTS
  BufSizes = {1, 2, 3, 4, 5, 7, 8}
  Sizes = {4, 5, 7}
  MaxObj = 3
  MaxFaults = 1
  MaxRefuse = 1
INVARIANTS EndToEnd
CHECK_DEADLOCK FALSE

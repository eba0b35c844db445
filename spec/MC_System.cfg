SPECIFICATION SSpec
CONSTANTS
  BufSizes = {1, 3, 4, 5, 8}
  Sizes = {4, 5}
  MaxObj = 2
  MaxFaults = 1
  MaxRefuse = 0
INVARIANTS EndToEnd
CHECK_DEADLOCK FALSE

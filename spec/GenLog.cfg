SPECIFICATION GSpec
CONSTANTS
  Logs = {1, 2, 3, 4, 5, 6, 7}
  Hdr = 32
  Meta = 24
  MaxChunk = 0
  W = 100000
  Steps = 25
INVARIANT Emit
CHECK_DEADLOCK FALSE

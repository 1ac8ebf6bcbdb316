SPECIFICATION TSpec
CONSTANTS
  Logs = {1}
  Hdr = 32
  Meta = 24
  MaxChunk = 0
  W = 1
CONSTRAINT Track
POSTCONDITION Report
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Logs = {1}
  Hdr = 1
  Meta = 2
  MaxChunk = 9
  W = 6
  Lens = {0, 2, 5, 7}
  MaxRecs = 4
  MaxClock = 6
  MaxBatch = 2
INVARIANTS IdsAscending CondPagesOK
CHECK_DEADLOCK FALSE

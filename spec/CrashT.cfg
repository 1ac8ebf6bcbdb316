SPECIFICATION Spec
CONSTANTS Sizes = {4, 8, 10, 13}
          MaxRecs = 6
          MaxBatch = 3
          MaxCrashes = 3
INVARIANTS Intact Durable
PROPERTIES Monotone Atomic
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Sizes = {3, 6, 8}
          MaxRecs = 4
          MaxBatch = 2
          MaxCrashes = 2
INVARIANTS Intact Durable
PROPERTIES Monotone Atomic
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Keys <- Big
 C = {1}
 Vals = {1}
 Locked = TRUE
INVARIANTS Linearizable Complete NoEmptyPaths
CHECK_DEADLOCK FALSE

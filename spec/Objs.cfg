SPECIFICATION Spec
CONSTANTS Keys <- Small
 C = {1, 2}
 Vals = {1, 2}
 Locked = TRUE
INVARIANTS Linearizable Complete NoEmptyPaths
CHECK_DEADLOCK FALSE

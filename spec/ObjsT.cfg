SPECIFICATION Spec
CONSTANTS Keys <- Small
 C = {1, 2, 3}
 Vals = {1}
 Locked = TRUE
INVARIANTS Linearizable Complete NoEmptyPaths
CHECK_DEADLOCK FALSE

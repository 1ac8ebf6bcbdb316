SPECIFICATION Spec
CONSTANTS N = 6
M = 7
INVARIANTS Grammar Meaning
CHECK_DEADLOCK FALSE

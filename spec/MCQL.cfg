SPECIFICATION Spec
CONSTANTS N = 5
M = 6
INVARIANTS Grammar Meaning
CHECK_DEADLOCK FALSE

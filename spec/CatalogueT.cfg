SPECIFICATION Spec
CONSTANTS IDs = {1, 2, 3, 4, 5}
Limits = {1, 2, 3}
INVARIANTS Once Complete NeverBack
CHECK_DEADLOCK FALSE

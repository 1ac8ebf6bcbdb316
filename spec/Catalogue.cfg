SPECIFICATION Spec
CONSTANTS IDs = {1, 2, 3, 4}
Limits = {1, 2}
INVARIANTS Once Complete NeverBack
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
 Logs = {1}
 MaxLocks = 1
 MaxOpened = 1
 Cap = 2
 Ops = 2
 Batches = {1, 3}
INVARIANTS Linear Faithful Sized Pools
CHECK_DEADLOCK FALSE

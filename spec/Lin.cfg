SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 Logs = {1, 2}
 MaxLocks = 1
 MaxOpened = 1
 Cap = 2
 Ops = 2
 Batches = {3}
INVARIANTS Linear Faithful Sized Pools
PROPERTY Ends
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
 Ops = 2
 OnError = TRUE
 Stale = TRUE
INVARIANT Fresh
CHECK_DEADLOCK FALSE

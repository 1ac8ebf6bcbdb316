SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 Ops = 3
 OnError = TRUE
 Stale = TRUE
INVARIANT Fresh
PROPERTY Ends
CHECK_DEADLOCK FALSE

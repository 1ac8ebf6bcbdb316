SPECIFICATION Spec
CONSTANTS H = {1, 2, 3}
 Slow = {1}
 TTL = 4
 Renewal = 2
 MaxT = 10
 MaxV = 6
 MaxFail = 1
 Wants = 2
INVARIANTS Exclusive OneLease
PROPERTY Available
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxLen = 3
 MaxFaults = 3
INVARIANT NeverLost
INVARIANT NeverPartial
PROPERTY ServedRight
CHECK_DEADLOCK FALSE

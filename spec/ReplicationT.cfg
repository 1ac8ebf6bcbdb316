SPECIFICATION Spec
CONSTANTS MaxLen = 6
 MaxFaults = 8
INVARIANT NeverLost
INVARIANT NeverPartial
PROPERTY ServedRight
CHECK_DEADLOCK FALSE

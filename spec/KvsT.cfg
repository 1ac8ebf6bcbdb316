SPECIFICATION Spec
CONSTANTS C = {1, 2, 3}
 Wait = {1}
 Mode = "mem"
 MaxV = 4
 MaxT = 5
INVARIANTS Once NoLostWake Fresh
PROPERTY Returns
CHECK_DEADLOCK FALSE

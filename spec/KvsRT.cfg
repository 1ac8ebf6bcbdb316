SPECIFICATION Spec
CONSTANTS C = {1, 2, 3}
 Wait = {1}
 Mode = "redis"
 MaxV = 3
 MaxT = 4
INVARIANTS Once NoLostWake Fresh
PROPERTY Returns
CHECK_DEADLOCK FALSE

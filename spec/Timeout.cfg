SPECIFICATION Spec
CONSTANTS F = {1, 2, 3}
          Delays = {0, 2}
          MaxW = 2
          Idle = 1
          Last = 2
          TMax = 8
          Cap = 2
INVARIANTS Once NotEarly InTime

CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS F = {1, 2, 3}
          Delays = {0, 1, 3}
          MaxW = 3
          Idle = 2
          Last = 3
          TMax = 10
          Cap = 2
INVARIANTS Once NotEarly InTime

CHECK_DEADLOCK FALSE

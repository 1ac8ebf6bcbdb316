SPECIFICATION Spec
CONSTANTS F = {1, 2}
          Delays = {0, 2}
          MaxW = 2
          Idle = 1
          Last = 2
          TMax = 11
          Cap = 2
INVARIANTS Once NotEarly InTime
PROPERTIES Fires Leaves
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Bits = 3
          Bytes = 2
          MaxSegs = 2
          Users = {1, 2}
INVARIANTS Books Disjoint Reused HintOk
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Threads = {t1, t2, t3}
  Keys = {k1, k2, k3}
  Max = 2
SYMMETRY Sym
INVARIANTS HeldAlive OneCreator NoneOfLive Bounded RefsRight NoLostWakeup ClosedLeavesNothing
CHECK_DEADLOCK FALSE

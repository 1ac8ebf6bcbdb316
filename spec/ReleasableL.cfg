SPECIFICATION Spec
CONSTANTS
  Threads = {t1, t2, t3}
  Keys = {k1, k2}
  Max = 1
INVARIANTS HeldAlive OneCreator NoneOfLive Bounded RefsRight NoLostWakeup ClosedLeavesNothing
PROPERTY Served
CHECK_DEADLOCK FALSE

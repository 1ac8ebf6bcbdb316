SPECIFICATION Spec
CONSTANTS
  Threads = {t1, t2, t3}
INVARIANTS OneExclusive OneOpener NeverDeletedInUse StateRight NoLostWakeup
PROPERTIES NoNewAccess
CHECK_DEADLOCK FALSE

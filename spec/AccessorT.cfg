SPECIFICATION Spec
CONSTANTS
  Threads = {t1, t2, t3, t4}
INVARIANTS OneExclusive OneOpener NeverDeletedInUse StateRight NoLostWakeup
PROPERTIES NoNewAccess
SYMMETRY Sym
CHECK_DEADLOCK FALSE

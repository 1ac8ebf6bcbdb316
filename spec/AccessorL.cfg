SPECIFICATION Spec
CONSTANTS
  Threads = {t1, t2}
INVARIANTS OneExclusive OneOpener NeverDeletedInUse StateRight NoLostWakeup
PROPERTIES OpenServed WriteServed WokenMoves NoNewAccess
CHECK_DEADLOCK FALSE

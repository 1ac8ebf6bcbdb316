-------------------------------- MODULE Dlock --------------------------------
(* C14: a lock kept as a record with a lease in a key-value storage (golibs/kvs/distlock). The record is created by *)
(* the one who locks, renewed by compare-and-set while the lock is held, and removed by compare-and-set. Lockers in  *)
(* Slow may be held up for any time and may die; for the others time passes no further than to their next step.      *)
EXTENDS Integers, FiniteSets
CONSTANTS H, Slow, TTL, Renewal, MaxT, MaxV, MaxFail, Wants
VARIABLES now, ver, exp,  \* the record: version (0: none), end of the lease
          last, st, mine, due, fails,
          wants      \* how many more times a locker will want the lock
vars == <<now, ver, exp, last, st, mine, due, fails, wants>>
Live == ver # 0 /\ exp >= now
Init == /\ now = 0 /\ ver = 0 /\ exp = 0 /\ last = 0 /\ st = [h \in H |-> "idle"] /\ mine = [h \in H |-> 0]
        /\ due = [h \in H |-> 0] /\ fails = [h \in H |-> 0] /\ wants = [h \in H |-> Wants]
Write(e) == last < MaxV /\ last' = last + 1 /\ ver' = last + 1 /\ exp' = e
Want(h) == /\ st[h] = "idle" /\ wants[h] > 0 /\ wants' = [wants EXCEPT ![h] = @ - 1] /\ st' = [st EXCEPT ![h] = "try"]
           /\ UNCHANGED <<now, ver, exp, last, mine, due, fails>>
GiveUp(h) == /\ st[h] = "try" /\ st' = [st EXCEPT ![h] = "idle"] /\ UNCHANGED <<now, ver, exp, last, mine, due, fails, wants>>
Acquire(h) == /\ st[h] = "try" /\ ~Live /\ Write(now + TTL) /\ st' = [st EXCEPT ![h] = "held"]
              /\ mine' = [mine EXCEPT ![h] = last + 1] /\ due' = [due EXCEPT ![h] = now + Renewal] /\ UNCHANGED <<now, fails, wants>>
\* (due 0: the lease is known to be lost)
Renew(h) == /\ st[h] = "held" /\ due[h] # 0 /\ due[h] <= now
            /\ IF Live /\ ver = mine[h]
               THEN Write(now + TTL) /\ mine' = [mine EXCEPT ![h] = last + 1] /\ due' = [due EXCEPT ![h] = now + Renewal]
               ELSE due' = [due EXCEPT ![h] = 0] /\ UNCHANGED <<last, ver, exp, mine>>
            /\ UNCHANGED <<now, st, fails, wants>>
\* the storage fails: try again soon
RenewFails(h) == /\ st[h] = "held" /\ due[h] # 0 /\ due[h] <= now /\ fails[h] < MaxFail
                 /\ fails' = [fails EXCEPT ![h] = @ + 1] /\ due' = [due EXCEPT ![h] = now + 1]
                 /\ UNCHANGED <<now, ver, exp, last, st, mine, wants>>
Unlock(h) == /\ st[h] = "held" /\ st' = [st EXCEPT ![h] = "rel"] /\ due' = [due EXCEPT ![h] = 0]
             /\ UNCHANGED <<now, ver, exp, last, mine, fails, wants>>
Remove(h) == /\ st[h] = "rel" /\ st' = [st EXCEPT ![h] = "idle"]
             /\ IF ver = mine[h] THEN ver' = 0 /\ exp' = 0 ELSE UNCHANGED <<ver, exp>>
             /\ UNCHANGED <<now, last, mine, due, fails, wants>>
RemoveFails(h) == /\ st[h] = "rel" /\ fails[h] < MaxFail /\ fails' = [fails EXCEPT ![h] = @ + 1]
                  /\ st' = [st EXCEPT ![h] = "idle"] /\ UNCHANGED <<now, ver, exp, last, mine, due, wants>>
Die(h) == /\ h \in Slow /\ st[h] \in {"held", "rel"} /\ st' = [st EXCEPT ![h] = "dead"]
          /\ UNCHANGED <<now, ver, exp, last, mine, due, fails, wants>>
Busy(h) == h \notin Slow /\ (ENABLED Acquire(h) \/ ENABLED Renew(h) \/ st[h] = "rel")
Tick == /\ now < MaxT /\ (\A h \in H : ~Busy(h)) /\ now' = now + 1 /\ UNCHANGED <<ver, exp, last, st, mine, due, fails, wants>>
Next == Tick \/ \E h \in H : Want(h) \/ GiveUp(h) \/ Acquire(h) \/ Renew(h) \/ RenewFails(h) \/ Unlock(h) \/ Remove(h) \/ RemoveFails(h) \/ Die(h)
Spec == Init /\ [][Next]_vars /\ WF_vars(Tick) /\ \A h \in H : WF_vars(Acquire(h)) /\ WF_vars(Renew(h)) /\ WF_vars(Remove(h))

Holder(h) == st[h] = "held"
\* who keeps its lease alive is alone
Exclusive == \A h, g \in H : h # g /\ Holder(h) /\ Holder(g) => h \in Slow \/ g \in Slow
OneLease == \A h \in H : Holder(h) /\ h \notin Slow /\ last < MaxV => Live /\ ver = mine[h]
\* a lock that nobody holds comes back
Held == \E h \in H : st[h] \in {"held", "rel"}
Waits == \E h \in H : st[h] = "try"
Available == (Waits /\ ~Held /\ now + TTL + 1 < MaxT /\ last < MaxV) ~> (Held \/ ~Waits \/ last = MaxV)
==============================================================================

----------------------------- MODULE Releasable -----------------------------
(* Design of golibs/container/lru/releasable.go: threads get and release shared objects of a bounded pool.   *)
(* Every action is one critical section of the implementation; waiting is on a channel that is closed later. *)
(* While the pool is open there is at most one object per key, so a key also names its object.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads, Keys, Max

VARIABLES
  st,      \* [Keys -> "none" | "infl" | "obj"]: the pool's knowledge
  alive,   \* [Keys -> BOOLEAN]: the object of the key exists and was not closed
  ref,     \* [Keys -> holders]
  idle,    \* Seq(key): unused objects, least recently used first
  closed,
  pc,      \* [Threads -> "idle" | "wait" | "create" | "hold"]
  arg,     \* [Threads -> key]
  for,     \* [Threads -> what a waiting thread waits for: "obj" (its creation) or "room"]
  woken    \* [Threads -> its channel has been closed]
vars == <<st, alive, ref, idle, closed, pc, arg, for, woken>>

Used(s) == Cardinality({k \in Keys : s[k] # "none"})

Init == /\ st = [k \in Keys |-> "none"] /\ alive = [k \in Keys |-> FALSE] /\ ref = [k \in Keys |-> 0] /\ idle = <<>>
        /\ closed = FALSE /\ pc = [t \in Threads |-> "idle"] /\ arg = [t \in Threads |-> CHOOSE k \in Keys : TRUE]
        /\ for = [t \in Threads |-> "obj"] /\ woken = [t \in Threads |-> FALSE]

\* sweep(n): removes idle objects, oldest first, while Used >= n
SweepN(s, id, n) == LET d == IF Used(s) >= n THEN Used(s) - n + 1 ELSE 0 IN IF d > Len(id) THEN Len(id) ELSE d
Gone(id, n) == {id[x] : x \in 1..n}
Without(s, g) == [k \in Keys |-> IF k \in g THEN "none" ELSE s[k]]
Kill(g) == [k \in Keys |-> alive[k] /\ k \notin g]

WakeRoom(w) == [x \in Threads |-> w[x] \/ (pc[x] = "wait" /\ for[x] = "room")]
WakeObj(w, k) == [x \in Threads |-> w[x] \/ (pc[x] = "wait" /\ for[x] = "obj" /\ arg[x] = k)]

Try(t, k) ==  \* the critical section at the head of GetOrCreate
  /\ arg' = [arg EXCEPT ![t] = k]
  /\ woken' = [woken EXCEPT ![t] = FALSE]
  /\ IF closed THEN pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<st, alive, ref, idle, for>>
     ELSE IF st[k] = "obj" THEN
          /\ ref' = [ref EXCEPT ![k] = @ + 1] /\ idle' = SelectSeq(idle, LAMBDA x : x # k)
          /\ pc' = [pc EXCEPT ![t] = "hold"] /\ UNCHANGED <<st, alive, for>>
     ELSE IF st[k] = "infl" THEN
          /\ pc' = [pc EXCEPT ![t] = "wait"] /\ for' = [for EXCEPT ![t] = "obj"] /\ UNCHANGED <<st, alive, ref, idle>>
     ELSE LET n == SweepN(st, idle, Max)
              g == Gone(idle, n)
              s == Without(st, g)
          IN /\ alive' = Kill(g) /\ idle' = SubSeq(idle, n + 1, Len(idle)) /\ UNCHANGED ref
             /\ IF Used(s) >= Max
                THEN st' = s /\ pc' = [pc EXCEPT ![t] = "wait"] /\ for' = [for EXCEPT ![t] = "room"]
                ELSE st' = [s EXCEPT ![k] = "infl"] /\ pc' = [pc EXCEPT ![t] = "create"] /\ UNCHANGED for
  /\ UNCHANGED closed

Get(t) == pc[t] = "idle" /\ \E k \in Keys : Try(t, k)
Wake(t) == pc[t] = "wait" /\ woken[t] /\ Try(t, arg[t])
GiveUp(t) == /\ pc[t] = "wait" /\ pc' = [pc EXCEPT ![t] = "idle"] /\ woken' = [woken EXCEPT ![t] = FALSE]
             /\ UNCHANGED <<st, alive, ref, idle, closed, arg, for>>

Created(t, ok) ==
  /\ pc[t] = "create"
  /\ LET k == arg[t] IN
     IF closed THEN pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<st, alive, ref, woken>>  \* the new object is closed at once
     ELSE IF ok THEN /\ st' = [st EXCEPT ![k] = "obj"] /\ alive' = [alive EXCEPT ![k] = TRUE] /\ ref' = [ref EXCEPT ![k] = 1]
                     /\ pc' = [pc EXCEPT ![t] = "hold"] /\ woken' = WakeObj(woken, k)
     ELSE /\ st' = [st EXCEPT ![k] = "none"] /\ pc' = [pc EXCEPT ![t] = "idle"]
          /\ woken' = WakeRoom(WakeObj(woken, k))     \* the room of the failed creation is free again
          /\ UNCHANGED <<alive, ref>>
  /\ UNCHANGED <<idle, closed, arg, for>>

Release(t) ==
  /\ pc[t] = "hold" /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ LET k == arg[t]
         r == ref[k] - 1
     IN /\ ref' = [ref EXCEPT ![k] = r]
        /\ IF r > 0 THEN UNCHANGED <<st, alive, idle, woken>>
           ELSE IF closed THEN alive' = Kill({k}) /\ UNCHANGED <<st, idle, woken>>
           ELSE LET id == Append(idle, k)
                    W  == \E x \in Threads : pc[x] = "wait" /\ for[x] = "room" /\ ~woken[x]
                    n  == SweepN(st, id, Max)
                    s  == Without(st, Gone(id, n))
                IN \/ W /\ idle' = SubSeq(id, n + 1, Len(id)) /\ st' = s /\ alive' = Kill(Gone(id, n))
                        /\ woken' = IF Used(s) < Max THEN WakeRoom(woken) ELSE woken
                   \/ ~W /\ idle' = id /\ UNCHANGED <<st, alive, woken>>
  /\ UNCHANGED <<closed, arg, for>>

Close ==
  /\ ~closed /\ closed' = TRUE
  /\ alive' = Kill(Gone(idle, Len(idle))) /\ idle' = <<>>
  /\ woken' = [x \in Threads |-> woken[x] \/ pc[x] = "wait"]
  /\ st' = [k \in Keys |-> "none"]
  /\ UNCHANGED <<ref, pc, arg, for>>

Next == Close \/ \E t \in Threads : Get(t) \/ Wake(t) \/ GiveUp(t) \/ Created(t, TRUE) \/ Created(t, FALSE) \/ Release(t)
Fair == \A t \in Threads : /\ WF_vars(Wake(t)) /\ WF_vars(Created(t, TRUE) \/ Created(t, FALSE)) /\ WF_vars(Release(t))
Spec == Init /\ [][Next]_vars /\ Fair

Creating == {t \in Threads : pc[t] = "create"}
HeldAlive == \A t \in Threads : pc[t] = "hold" => alive[arg[t]]
OneCreator == \A a, b \in Creating : a # b => arg[a] # arg[b]
NoneOfLive == \A a \in Creating : ~closed => ~alive[arg[a]]
Bounded == Cardinality({k \in Keys : alive[k]}) + Cardinality(Creating) <= Max
RefsRight == \A k \in Keys : alive[k] => ref[k] = Cardinality({t \in Threads : pc[t] = "hold" /\ arg[t] = k})
\* nobody waits without a reason: it is woken, or its object is being created, or there is no room
NoLostWakeup == \A t \in Threads : pc[t] = "wait" /\ ~woken[t] =>
   /\ ~closed
   /\ \/ for[t] = "obj" /\ st[arg[t]] = "infl"
      \/ for[t] = "room" /\ Used(st) >= Max /\ idle = <<>>
ClosedLeavesNothing == closed => \A k \in Keys : alive[k] => ref[k] > 0
Served == \A t \in Threads : (pc[t] = "wait" /\ woken[t]) ~> ~(pc[t] = "wait" /\ woken[t])
Sym == Permutations(Threads) \cup Permutations(Keys)
=============================================================================

------------------------------ MODULE Timeout ------------------------------
(* C16: calls scheduled for later (golibs/timeout). Futures wait ordered by their time; workers sleep until the  *)
(* first of them is due or until they are woken up, run what is due, start further workers when more is due, and *)
(* leave after having slept for nothing. Time passes only when no worker has anything to do.                     *)
EXTENDS Integers, FiniteSets
CONSTANTS F, Delays, MaxW, Idle, Last, TMax, Cap
VARIABLES now, fut, fire, w, tok, count
vars == <<now, fut, fire, w, tok, count>>
W == 1..MaxW
Off == [st |-> "off", until |-> 0, mis |-> 0, f |-> 0]
Watchers == Cardinality({x \in W : w[x].st # "off"})
Sched == {f \in F : fut[f] = "sched"}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
First == Min({fire[f] : f \in Sched})
Due == {f \in Sched : fire[f] < now}
Least(a, b) == IF a < b THEN a ELSE b
Notify == tok' = Least(Cap, tok + 1)
Start == CHOOSE x \in W : w[x].st = "off"
Top(mis) == [st |-> "top", until |-> 0, mis |-> mis, f |-> 0]

Init == /\ now = 0 /\ fut = [f \in F |-> "new"] /\ fire = [f \in F |-> 0] /\ w = [x \in W |-> Off] /\ tok = 0
        /\ count = [f \in F |-> 0]
Call(f, d) == /\ fut[f] = "new" /\ now <= Last /\ fut' = [fut EXCEPT ![f] = "sched"] /\ fire' = [fire EXCEPT ![f] = now + d]
              /\ IF Watchers = 0 THEN w' = [w EXCEPT ![Start] = Top(0)] /\ UNCHANGED tok ELSE Notify /\ UNCHANGED w
              /\ UNCHANGED <<now, count>>
Cancel(f) == /\ fut[f] = "sched" /\ fut' = [fut EXCEPT ![f] = "cancelled"]
             /\ IF Watchers > 0 THEN Notify ELSE UNCHANGED tok
             /\ UNCHANGED <<now, fire, w, count>>
Decide(x) ==
  /\ w[x].st = "top"
  /\ LET mis == Least(2, w[x].mis + 1) IN
     IF Sched = {} THEN
        /\ w' = [w EXCEPT ![x] = IF mis > 1 THEN Off ELSE [st |-> "sleep", until |-> now + Idle, mis |-> mis, f |-> 0]]
        /\ UNCHANGED <<fut, count>>
     ELSE IF First < now THEN
        \E f \in {g \in Sched : fire[g] = First} :
           /\ fut' = [fut EXCEPT ![f] = "run"] /\ count' = [count EXCEPT ![f] = @ + 1]
           /\ LET v == [w EXCEPT ![x] = [st |-> "run", until |-> 0, mis |-> 0, f |-> f]] IN
              w' = IF Due # {f} /\ Watchers < MaxW THEN [v EXCEPT ![Start] = Top(0)] ELSE v
     ELSE /\ w' = [w EXCEPT ![x] = IF Watchers > 1 /\ mis > 1 THEN Off
                                   ELSE [st |-> "sleep", mis |-> mis, f |-> 0,
                                         until |-> IF Watchers > 1 THEN Least(First, now + Idle) ELSE First]]
          /\ UNCHANGED <<fut, count>>
  /\ UNCHANGED <<now, fire, tok>>
Return(x) == /\ w[x].st = "run" /\ fut' = [fut EXCEPT ![w[x].f] = "done"] /\ w' = [w EXCEPT ![x] = Top(-1)]
             /\ UNCHANGED <<now, fire, tok, count>>
Wake(x) == /\ w[x].st = "sleep"
           /\ \/ w[x].until < now /\ w' = [w EXCEPT ![x] = Top(w[x].mis)] /\ UNCHANGED tok
              \/ tok > 0 /\ tok' = tok - 1 /\ w' = [w EXCEPT ![x] = Top(0)]
           /\ UNCHANGED <<now, fut, fire, count>>
Quiet == \A x \in W : w[x].st \in {"off", "run"} \/ (w[x].st = "sleep" /\ w[x].until >= now /\ tok = 0)
\* (functions end in time for the rest to be seen within TMax)
Tick == /\ Quiet /\ now < TMax /\ (now > Last + 2 => \A x \in W : w[x].st # "run") /\ now' = now + 1 /\ UNCHANGED <<fut, fire, w, tok, count>>
Next == (\E f \in F : Cancel(f) \/ \E d \in Delays : Call(f, d)) \/ (\E x \in W : Decide(x) \/ Return(x) \/ Wake(x)) \/ Tick
Spec == Init /\ [][Next]_vars /\ WF_vars(Tick) /\ \A x \in W : WF_vars(Decide(x)) /\ WF_vars(Return(x)) /\ WF_vars(Wake(x))

Once == \A f \in F : count[f] = (IF fut[f] \in {"run", "done"} THEN 1 ELSE 0)
NotEarly == \A f \in F : fut[f] \in {"run", "done"} => now > fire[f]
\* what is due is started at once, unless a worker is busy with a function that takes its time
InTime == Quiet /\ (\A x \in W : w[x].st # "run") => \A f \in Sched : fire[f] >= now
Fires == \A f \in F : fut[f] = "sched" ~> fut[f] # "sched"
Leaves == <>[](now = TMax /\ Watchers = 0)
=============================================================================

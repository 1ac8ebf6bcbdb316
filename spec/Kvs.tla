--------------------------------- MODULE Kvs ---------------------------------
(* C15: one key of a versioned key-value storage (golibs/kvs), used by several clients at once. Mode "mem": every  *)
(* operation is one critical section, a waiter registers itself in the one where it looked and is woken by the      *)
(* next change or when the record it looked at expires. Mode "redis": a compare-and-set watches the key, looks, and  *)
(* is executed only if the key was not touched since; a waiter looks again and again.                               *)
EXTENDS Integers, FiniteSets
CONSTANTS C, Mode, MaxV, MaxT, Wait
VARIABLES ver,   \* the version of the record, 0: there is none
          exp,   \* when it expires, 0: never
          last,  \* the last version given
          now,
          pc,    \* [client -> what it does: "idle", "cas1" (it has looked), "wait" (about to look), "sleep"]
          arg,   \* [client -> the version it compares with or waits for a change of]
          ok,    \* the clients that watch the key and for whom it did not change
          tmr,   \* [client -> when the timer of the waiter fires, 0: none]
          woken, \* the waiters that were notified
          won    \* [version -> how many compare-and-sets on it succeeded]
vars == <<ver, exp, last, now, pc, arg, ok, tmr, woken, won>>
Live == ver # 0 /\ (exp = 0 \/ exp >= now)
Sleepers == {c \in C : pc[c] = "sleep"}
Write(e) == /\ last' = last + 1 /\ ver' = last + 1 /\ exp' = e /\ ok' = {}
            /\ woken' = IF Mode = "mem" THEN woken \cup Sleepers ELSE woken
Gone == /\ ver' = 0 /\ exp' = 0 /\ ok' = {} /\ woken' = (IF Mode = "mem" THEN woken \cup Sleepers ELSE woken) /\ UNCHANGED last
Keep == UNCHANGED <<ver, exp, last, ok, woken>>
Init == /\ ver = 0 /\ exp = 0 /\ last = 0 /\ now = 1 /\ ok = {} /\ woken = {}
        /\ pc = [c \in C |-> "idle"] /\ arg = [c \in C |-> 0] /\ tmr = [c \in C |-> 0]
        /\ won = [v \in 0..MaxV |-> 0]
Exps == {0, now + 1}
Create(c) == /\ pc[c] = "idle" /\ last < MaxV /\ UNCHANGED <<now, pc, arg, tmr, won>>
             /\ IF Live THEN Keep ELSE (\E e \in Exps : Write(e))
Put(c) == /\ pc[c] = "idle" /\ last < MaxV /\ (\E e \in Exps : Write(e)) /\ UNCHANGED <<now, pc, arg, tmr, won>>
Delete(c) == /\ pc[c] = "idle" /\ Live /\ Gone /\ UNCHANGED <<now, pc, arg, tmr, won>>
\* compare-and-set on a version that the client knows of
Cas(c) == /\ pc[c] = "idle" /\ last < MaxV
          /\ \E v \in 1..last :
             IF Mode = "mem"
             THEN /\ IF Live /\ ver = v THEN (\E e \in Exps : Write(e)) /\ won' = [won EXCEPT ![v] = @ + 1] ELSE Keep /\ UNCHANGED won
                  /\ UNCHANGED <<pc, arg>>
             ELSE /\ UNCHANGED <<won, ver, exp, last, woken>> /\ arg' = [arg EXCEPT ![c] = v] /\ ok' = ok \cup {c}
                  /\ pc' = [pc EXCEPT ![c] = "watch"]
          /\ UNCHANGED <<now, tmr>>
Look(c) == /\ pc[c] = "watch" /\ pc' = [pc EXCEPT ![c] = IF Live /\ ver = arg[c] THEN "exec" ELSE "idle"]
           /\ Keep /\ UNCHANGED <<now, arg, tmr, won>>
\* (an expired record that was not removed yet counts as a change, too)
Exec(c) == /\ pc[c] = "exec" /\ pc' = [pc EXCEPT ![c] = "idle"]
           /\ IF c \in ok /\ Live /\ last < MaxV THEN (\E e \in Exps : Write(e)) /\ won' = [won EXCEPT ![arg[c]] = @ + 1] ELSE Keep /\ UNCHANGED won
           /\ UNCHANGED <<now, arg, tmr>>
WaitFor(c) == /\ pc[c] = "idle" /\ c \in Wait /\ \E v \in 1..last : arg' = [arg EXCEPT ![c] = v]
              /\ pc' = [pc EXCEPT ![c] = "wait"] /\ Keep /\ UNCHANGED <<now, tmr, won>>
Changed(c) == ~Live \/ ver # arg[c]
Check(c) == /\ pc[c] = "wait"
            /\ pc' = [pc EXCEPT ![c] = IF Changed(c) THEN "idle" ELSE "sleep"]
            /\ tmr' = [tmr EXCEPT ![c] = IF Changed(c) THEN 0 ELSE exp]
            /\ woken' = woken \ {c} /\ UNCHANGED <<ver, exp, last, ok, now, arg, won>>
Wake(c) == /\ pc[c] = "sleep" /\ (Mode = "redis" \/ c \in woken \/ (tmr[c] # 0 /\ tmr[c] < now))
           /\ pc' = [pc EXCEPT ![c] = "wait"] /\ Keep /\ UNCHANGED <<now, arg, tmr, won>>
Cancel(c) == /\ pc[c] = "sleep" /\ pc' = [pc EXCEPT ![c] = "idle"] /\ woken' = woken \ {c}
             /\ UNCHANGED <<ver, exp, last, ok, now, arg, tmr, won>>
\* time passes when nobody is about to do something
Tick == /\ now < MaxT /\ (Mode = "mem" => \A c \in C : pc[c] \in {"idle", "sleep"} /\ ~ENABLED Wake(c))
        /\ now' = now + 1 /\ UNCHANGED <<ver, exp, last, ok, pc, arg, tmr, woken, won>>
Step(c) == Look(c) \/ Exec(c) \/ Check(c) \/ Wake(c)
Next == (\E c \in C : Create(c) \/ Put(c) \/ Delete(c) \/ Cas(c) \/ WaitFor(c) \/ Cancel(c) \/ Step(c)) \/ Tick
Spec == Init /\ [][Next]_vars /\ WF_vars(Tick) /\ \A c \in C : WF_vars(Step(c))

\* of the compare-and-sets on one version one succeeds
Once == \A v \in 0..MaxV : won[v] <= 1
\* nobody sleeps over a change: whoever sleeps is woken or looked at what is there, and no longer than until it expires
NoLostWake == \A c \in Sleepers : Mode = "redis" \/ c \in woken \/ (tmr[c] # 0 /\ tmr[c] <= now + 1) \/ (ver = arg[c] /\ exp = 0)
Fresh == ver <= last
\* a waiter whose record is gone or has another version returns
Returns == \A c \in C : (pc[c] = "sleep" /\ Changed(c)) ~> pc[c] = "idle"
==============================================================================

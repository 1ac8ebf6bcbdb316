---------------------------- MODULE TraceDlock ----------------------------
(* C14: what the users of a distributed lock may observe. Times are microseconds of the virtual clock. A holder is weak *)
(* when it could not keep its lease: its provider died, was cut off for long, or failed too often.                      *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)
TTL == 10000000
Slack == 1000000
VARIABLES t, i,
          st,    \* [thread -> "idle", "lock", "try", "held", "unl"]
          lk,    \* [thread -> locker]
          t0,    \* when the call began
          weak,  \* the holder may have lost its lease
          hits,  \* faults of the provider since the call began
          upto,  \* how long the storage may hold up the thread
          ended, \* its context ended
          comp,  \* somebody else was about the same lock during the try
          late,  \* the call came after the shutdown
          free,  \* [name -> what is left of a lease is gone then]
          prov   \* [provider -> "up", "stopping", "down" (shut down), "dead"]; cut: it is cut off for long
vars == <<st, lk, t0, weak, hits, upto, ended, comp, late, free, prov>>
tvars == <<t, i, vars>>
E == Traces[t][i]
L == Traces[t][1].lockers
Th == DOMAIN st
Name(h) == L[lk[h]].name
Pr(h) == L[lk[h]].p
Dead(h) == prov[Pr(h)].dead
Alike(h, g) == h # g /\ st[g] # "idle" /\ Name(g) = Name(h)
Weak(h) == weak[h] \/ Dead(h) \/ hits[h] > 2
Held(nm) == \E g \in Th : st[g] \in {"held", "unl"} /\ Name(g) = nm /\ ~Dead(g)
Max(a, b) == IF a > b THEN a ELSE b

Ret(h, e) ==
  CASE e.err = "" /\ e.ok ->
        (CASE \E g \in Th : Alike(h, g) /\ st[g] = "held" /\ ~Weak(g) /\ ~Weak(h) -> "two hold one lock"
           [] late[h] -> "a lock is taken after the shutdown"
           [] OTHER -> "")
    [] e.err = "" /\ ~e.ok -> (IF comp[h] \/ hits[h] > 0 \/ ended[h] \/ prov[Pr(h)].down # "no" \/ prov[Pr(h)].dead \/ free[Name(h)] > t0[h] THEN ""
                               ELSE "a try fails though the lock is free")
    [] e.err = "ctx" -> IF ended[h] THEN "" ELSE "a context error, but the context goes on"
    [] e.err = "Closed" -> IF prov[Pr(h)].down # "no" THEN "" ELSE "an error tells of a shutdown that did not happen"
    [] e.err = "Communication" -> IF hits[h] > 0 THEN "" ELSE "an error tells of a failure that did not happen"
    [] OTHER -> "a lock fails: " \o e.err

Quiet(e) ==
  CASE \E h \in Th : st[h] = "lock" /\ ended[h] /\ upto[h] < e.t -> "a lock goes on though its context ended"
    [] \E h \in Th : st[h] = "try" /\ upto[h] < e.t -> "a try blocks"
    [] \E h \in Th : st[h] = "unl" /\ upto[h] < e.t -> "an unlock blocks"
    [] \E h \in Th : st[h] = "lock" /\ ~Dead(h) /\ prov[Pr(h)].down = "no" /\ ~Held(Name(h)) /\ upto[h] < e.t
                     /\ (e.last \/ free[Name(h)] + Slack < e.t)
                     /\ \A g \in Th : Alike(h, g) => upto[g] + TTL < e.t
       -> "nobody holds the lock, but it is not given to who waits"
    [] OTHER -> ""

Verdict(e) ==
  CASE e.e = "ret" -> IF st[e.th] = "try" /\ e.t > t0[e.th] + 3000 /\ upto[e.th] < t0[e.th] THEN "a try blocks" ELSE Ret(e.th, e)
    [] e.e = "unlocked" -> IF e.err # "" THEN "unlock fails: " \o e.err ELSE ""
    [] e.e = "quiet" -> Quiet(e)
    [] e.e = "hang" -> "the lockers do not come to an end"
    [] OTHER -> ""

TInit == /\ t \in 1..Len(Traces) /\ i = 2
         /\ LET S == 1..Traces[t][1].n IN
            /\ st = [h \in S |-> "idle"] /\ lk = [h \in S |-> 1] /\ t0 = [h \in S |-> 0] /\ weak = [h \in S |-> FALSE]
            /\ hits = [h \in S |-> 0] /\ upto = [h \in S |-> -1] /\ ended = [h \in S |-> FALSE] /\ comp = [h \in S |-> FALSE]
            /\ late = [h \in S |-> FALSE]
         /\ free = [x \in 1..2 |-> -1] /\ prov = [p \in 1..3 |-> [dead |-> FALSE, down |-> "no", cut |-> FALSE]]
On(h, p) == st[h] # "idle" /\ Pr(h) = p
TNext ==
  /\ i <= Len(Traces[t])
  /\ LET v == Verdict(E) IN IF v # "" THEN PrintT(<<"BAD", t, i, v>>) /\ FALSE ELSE TRUE
  /\ i' = i + 1 /\ UNCHANGED t
  /\ st' = (CASE E.e = "call" -> [st EXCEPT ![E.th] = E.op]
              [] E.e = "ret" -> [st EXCEPT ![E.th] = IF E.ok THEN "held" ELSE "idle"]
              [] E.e = "unlock" -> [st EXCEPT ![E.th] = "unl"]
              [] E.e \in {"unlocked", "gone"} -> [st EXCEPT ![E.th] = "idle"] [] OTHER -> st)
  /\ lk' = IF E.e = "call" THEN [lk EXCEPT ![E.th] = E.l] ELSE lk
  /\ t0' = IF E.e = "call" THEN [t0 EXCEPT ![E.th] = E.t] ELSE t0
  /\ weak' = (CASE E.e = "call" -> [weak EXCEPT ![E.th] = prov[L[E.l].p].cut]
                [] E.e = "cut" -> [h \in Th |-> weak[h] \/ (On(h, E.p) /\ E.long)]
                [] E.e = "hit" -> [h \in Th |-> weak[h] \/ (E.th = h /\ E.long) \/ (On(h, E.p) /\ E.lost /\ E.th = 0)]
                [] OTHER -> weak)
  /\ hits' = (CASE E.e = "call" -> [hits EXCEPT ![E.th] = 0]
                [] E.e = "hit" /\ E.fails -> [h \in Th |-> IF On(h, E.p) THEN hits[h] + 1 ELSE hits[h]]
                [] OTHER -> hits)
  /\ upto' = (CASE E.e = "call" -> [upto EXCEPT ![E.th] = -1]
                [] E.e = "hit" -> [h \in Th |-> IF On(h, E.p) /\ (E.th = h \/ E.th = 0) THEN Max(upto[h], E.upto) ELSE upto[h]]
                [] OTHER -> upto)
  /\ ended' = (CASE E.e = "call" -> [ended EXCEPT ![E.th] = E.ended]
                 [] E.e = "cancel" -> [ended EXCEPT ![E.th] = TRUE] [] OTHER -> ended)
  /\ comp' = (CASE E.e = "call" -> LET nm == L[E.l].name
                                       o == {g \in Th \ {E.th} : st[g] # "idle" /\ Name(g) = nm} IN
                                   [h \in Th |-> IF h = E.th THEN o # {} ELSE comp[h] \/ h \in o]
                [] OTHER -> comp)
  /\ late' = IF E.e = "call" THEN [late EXCEPT ![E.th] = prov[L[E.l].p].down = "before"] ELSE late
  /\ free' = (CASE E.e = "unlocked" \/ (E.e = "ret" /\ ~E.ok) ->
                     LET h == E.th IN [free EXCEPT ![Name(h)] = Max(@, IF hits[h] > 0 \/ weak[h] \/ Dead(h) THEN E.t + TTL
                                                                     ELSE IF E.e = "unlocked" THEN E.t ELSE @)]
                [] E.e = "die" -> [x \in 1..2 |-> IF \E h \in Th : On(h, E.p) /\ Name(h) = x THEN Max(free[x], E.t + TTL) ELSE free[x]]
                [] OTHER -> free)
  /\ prov' = (CASE E.e = "die" -> [prov EXCEPT ![E.p].dead = TRUE]
                [] E.e = "cut" -> [prov EXCEPT ![E.p].cut = @ \/ E.long]
                [] E.e = "cutend" -> [prov EXCEPT ![E.p].cut = FALSE]
                [] E.e = "shutdown" -> [prov EXCEPT ![E.p].down = "during"]
                [] E.e = "stopped" -> [prov EXCEPT ![E.p].down = "before"]
                [] OTHER -> prov)

TSpec == TInit /\ [][TNext]_tvars
Track == IF TLCGet(t) < i THEN TLCSet(t, i) ELSE TRUE
ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)
Report == \A k \in 1..Len(Traces) : PrintT(<<"REACHED", k, TLCGet(k), Len(Traces[k])>>)
=============================================================================

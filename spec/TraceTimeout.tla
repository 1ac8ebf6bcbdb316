---------------------------- MODULE TraceTimeout ----------------------------
(* C16: what a user of the scheduled calls may observe. Times are microseconds of the virtual clock; the
  stall is the time that passed while somebody who could go on was not let to: lateness of that much is nobody's fault *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i,
          st,     \* [function -> "new", "calling" (the scheduling call goes on), "sched"]
          lo, hi, \* [function -> earliest and latest moment it is due]
          run,    \* [function -> 0: not started, 1: runs, 2: returned]
          canc    \* [function -> "no", "maybe" (a cancel began), "race" (it returned when the function was due), "yes"]
vars == <<st, lo, hi, run, canc>>
tvars == <<t, i, vars>>
E == Traces[t][i]
F == DOMAIN st
Busy == \E f \in F : run[f] = 1

Verdict(e) ==
  CASE e.e = "call" -> ""
    [] e.e = "called" -> IF e.err # "" THEN "scheduling a function failed: " \o e.err ELSE ""
    [] e.e = "fire" -> (CASE st[e.id] = "new" -> "a function is invoked that nobody scheduled"
                          [] run[e.id] # 0 -> "a function is invoked twice"
                          [] e.t < lo[e.id] -> "a function is invoked too early"
                          [] canc[e.id] = "yes" -> "a cancelled function is invoked"
                          [] OTHER -> "")
    [] e.e = "ran" -> ""
    [] e.e = "cancel" -> ""
    [] e.e = "cancelled" -> IF e.err # "" THEN "cancel failed: " \o e.err ELSE ""
    [] e.e = "quiet" -> (IF \E f \in F : st[f] = "sched" /\ run[f] = 0 /\ canc[f] = "no" /\ hi[f] + e.stall < e.t /\ ~Busy
                         THEN "a function is not invoked although it is due and nothing else runs" ELSE "")
    [] e.e = "end" -> (CASE \E f \in F : st[f] = "calling" -> "scheduling a function does not return"
                         [] \E f \in F : st[f] = "sched" /\ canc[f] = "no" /\ run[f] = 0 -> "a function was never invoked"
                         [] OTHER -> "")
    [] e.e = "hang" -> "the scheduled calls do not come to an end"
    [] OTHER -> "unknown event"

TInit == /\ t \in 1..Len(Traces) /\ i = 2
         /\ LET S == 1..Traces[t][1].n IN
            /\ st = [f \in S |-> "new"] /\ lo = [f \in S |-> 0] /\ hi = [f \in S |-> 0] /\ run = [f \in S |-> 0]
            /\ canc = [f \in S |-> "no"]
TNext ==
  /\ i <= Len(Traces[t])
  /\ LET v == Verdict(E) IN IF v # "" THEN PrintT(<<"BAD", t, i, v>>) /\ FALSE ELSE TRUE
  /\ i' = i + 1 /\ UNCHANGED t
  /\ st' = (CASE E.e = "call" -> [st EXCEPT ![E.id] = "calling"] [] E.e = "called" -> [st EXCEPT ![E.id] = "sched"] [] OTHER -> st)
  /\ lo' = IF E.e = "call" THEN [lo EXCEPT ![E.id] = E.lo] ELSE lo
  /\ hi' = IF E.e = "called" THEN [hi EXCEPT ![E.id] = E.hi] ELSE hi
  /\ run' = (CASE E.e = "fire" -> [run EXCEPT ![E.id] = 1] [] E.e = "ran" -> [run EXCEPT ![E.id] = 2] [] OTHER -> run)
  /\ canc' = (CASE E.e = "cancel" -> [canc EXCEPT ![E.id] = IF @ = "no" THEN "maybe" ELSE @]
                [] E.e = "cancelled" ->     \* before it was due: for sure; later its start may have been decided
                     [canc EXCEPT ![E.id] = IF run[E.id] # 0 \/ @ = "yes" THEN @ ELSE IF E.t < lo[E.id] THEN "yes" ELSE "race"]
                [] E.e = "quiet" -> [f \in F |-> IF canc[f] = "race" /\ run[f] = 0 /\ ~Busy THEN "yes" ELSE canc[f]]
                [] OTHER -> canc)

TSpec == TInit /\ [][TNext]_tvars
Track == IF TLCGet(t) < i THEN TLCSet(t, i) ELSE TRUE
ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)
Report == \A k \in 1..Len(Traces) : PrintT(<<"REACHED", k, TLCGet(k), Len(Traces[k])>>)
=============================================================================

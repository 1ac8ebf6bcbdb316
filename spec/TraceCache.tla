----------------------------- MODULE TraceCache -----------------------------
(* C09: a read through the metadata cache observes every change whose call returned before the read was called, and nothing  *)
(* that the storage never had or does not have yet. Checks executions of the real CachedStorage (harness/cacheh) over a       *)
(* storage that gives every change of a log and of its chunk list the next version.                                          *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)
Gone == 1000      \* the version of a deleted log
VARIABLES t, i,
          cur,    \* [1..logs -> [l, c]]: versions of the log and of its chunk list in the storage
          lo,     \* what calls that start now must see at least
          pend    \* [thread -> [op, k, at, done, rf]]: the pending call, lo when it was called, what it changed, a read of the storage failed
vars == <<cur, lo, pend>>
tvars == <<t, i, vars>>
E == Traces[t][i]
Cfg == Traces[t][1]
Keys == 1..Cfg.logs
Idle == [op |-> "", k |-> 0, at |-> <<>>, done |-> {}, rf |-> FALSE]
Reads == {"get", "chunks", "last", "query"}
Kind(op) == IF op \in {"get", "query"} THEN "l" ELSE "c"
Verdict(e) ==
  CASE e.e = "call" -> (IF pend[e.t].op # "" THEN "bad trace" ELSE "")
    [] e.e = "applied" -> ""
    [] e.e = "rf" -> ""
    [] e.e = "ret" ->
         (LET p == pend[e.t]
              low == p.at[p.k][Kind(p.op)]
              high == cur[p.k][Kind(p.op)]
              gone == high = Gone
          IN
          CASE e.err = "panic" -> "a call panicked"
            [] p.op \notin Reads -> (IF (e.err = "") # (e.want = "") THEN "a change reports something else than the storage" ELSE "")
            [] e.err = "io" -> (IF p.rf THEN "" ELSE "an error of the storage is reported to a call during which there was none")
            [] e.err = "NotExist" ->
                 (IF gone \/ (p.op = "last" /\ low = 0) THEN ""
                  ELSE "a log that exists is not found")
            [] e.err # "" -> "unexpected error: " \o e.err
            [] e.v < 0 -> "a read returned what the storage never had"
            [] low = Gone -> "a read found a log whose deletion had completed"
            [] e.v < low -> "a read returned what a completed change had replaced"
            [] high # Gone /\ e.v > high -> "a read returned what the storage does not have"
            [] p.op = "last" /\ e.v = 0 -> "a last chunk is returned for a log without chunks"
            [] OTHER -> "")
    [] e.e = "quiet" -> (IF \E x \in DOMAIN pend : pend[x].op # "" THEN "a call waits for something that does not come" ELSE "")
    [] e.e = "hang" -> "a call does not return"
    [] OTHER -> "unknown event"
TInit == /\ t \in 1..Len(Traces) /\ i = 2
         /\ cur = [k \in 1..Traces[t][1].logs |-> [l |-> 0, c |-> 0]] /\ lo = [k \in 1..Traces[t][1].logs |-> [l |-> 0, c |-> 0]]
         /\ pend = [x \in 1..(Traces[t][1].n + 1) |-> Idle]
Max(a, b) == IF a > b THEN a ELSE b
New(d, k, x) == LET s == {y.ver : y \in {z \in d : z.k = k /\ z.kind = x}} IN IF s = {} THEN 0 ELSE CHOOSE v \in s : \A w \in s : w <= v
TNext ==
  /\ i <= Len(Traces[t])
  /\ LET v == Verdict(E) IN IF v # "" THEN PrintT(<<"BAD", t, i, v>>) /\ FALSE ELSE TRUE
  /\ i' = i + 1 /\ UNCHANGED t
  /\ cur' = IF E.e = "applied" THEN [cur EXCEPT ![E.k] = IF E.kind = "d" THEN [l |-> Gone, c |-> Gone] ELSE [@ EXCEPT ![E.kind] = E.ver]] ELSE cur
  /\ lo' = IF E.e = "ret" /\ pend[E.t].done # {}
           THEN [k \in Keys |-> IF New(pend[E.t].done, k, "d") > 0 THEN [l |-> Gone, c |-> Gone]
                                ELSE [l |-> Max(lo[k].l, New(pend[E.t].done, k, "l")), c |-> Max(lo[k].c, New(pend[E.t].done, k, "c"))]]
           ELSE lo
  /\ pend' = (CASE E.e = "call" -> [pend EXCEPT ![E.t] = [Idle EXCEPT !.op = E.op, !.k = E.k, !.at = lo]]
                [] E.e = "applied" -> [pend EXCEPT ![E.t].done = @ \cup {[k |-> E.k, kind |-> E.kind, ver |-> E.ver]}]
                [] E.e = "rf" -> [x \in DOMAIN pend |-> IF pend[x].op # "" THEN [pend[x] EXCEPT !.rf = TRUE] ELSE pend[x]]
                [] E.e = "ret" -> [pend EXCEPT ![E.t] = Idle]
                [] OTHER -> pend)
TSpec == TInit /\ [][TNext]_tvars
Track == IF TLCGet(t) < i THEN TLCSet(t, i) ELSE TRUE
ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)
Report == \A k \in 1..Len(Traces) : PrintT(<<"REACHED", k, TLCGet(k), Len(Traces[k])>>)
=============================================================================

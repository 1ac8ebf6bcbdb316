------------------------------ MODULE TraceLin ------------------------------
(* C21: concurrent appends, reads and counts of logs are linearizable per log, and every call returns. Checks executions of   *)
(* the real service (harness/linh). The order of the appends of a log is known from its final content (in the first event),   *)
(* so a linearization exists iff every read, in the order of the returns, can be given the shortest prefix of whole appends    *)
(* that it is consistent with and that is not shorter than what was complete when it was called.                               *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i,
          lo,      \* [log -> records that every call starting now must see at least]
          called,  \* append batches called so far: set of [k, from, to] (record numbers: a batch is a contiguous range of them)
          pend,    \* [thread -> the pending call]
          dc, dr   \* logs whose deletion was called, had returned
vars == <<lo, called, pend, dc, dr>>
tvars == <<t, i, vars>>
E == Traces[t][i]
Cfg == Traces[t][1]
Logs == 1..Cfg.logs
Final(k) == Cfg.final[k]                   \* Seq of record numbers
Idle == [op |-> "", k |-> 0, lo |-> <<>>, n |-> 0, desc |-> FALSE, lim |-> 0, first |-> 0, dc |-> {}, dr |-> {}]
Pos(k, r) == LET s == {x \in 1..Len(Final(k)) : Final(k)[x] = r} IN IF s = {} THEN 0 ELSE CHOOSE x \in s : TRUE
Rev(s) == [x \in 1..Len(s) |-> s[Len(s) + 1 - x]]
Min(a, b) == IF a < b THEN a ELSE b
Cut(s, n) == SubSeq(s, 1, Min(n, Len(s)))
Seen(k, m, desc, lim) == LET p == Cut(Final(k), m) IN Cut(IF desc THEN Rev(p) ELSE p, lim)
\* m records are a state of the log: a whole number of appends, all of them called
Bound(k, m) == m = 0 \/ (/\ \E b \in called : b.k = k /\ b.to = Final(k)[m]
                         /\ \A x \in 1..m : \E b \in called : b.k = k /\ Final(k)[x] \in b.from..b.to)
States(k) == {m \in 0..Len(Final(k)) : Bound(k, m)}
Least(S) == CHOOSE m \in S : \A x \in S : m <= x
Of(recs, k) == LET s == SelectSeq(recs, LAMBDA r : r.k = k) IN [x \in 1..Len(s) |-> s[x].r]
ReadOk(p, k, got) == {m \in States(k) : Seen(k, m, p.desc, p.lim) = got}
Matches(p, k, e) == IF p.op = "count" THEN {m \in States(k) : m = e.n} ELSE ReadOk(p, k, Of(e.recs, k))
Targets(p) == IF p.op = "merge" THEN Logs ELSE {p.k}
Fits(p, k, e) == {m \in Matches(p, k, e) : m >= p.lo[k]}

Verdict(e) ==
  CASE e.e = "call" -> (IF pend[e.t].op # "" THEN "bad trace" ELSE "")
    [] e.e = "ret" ->
         (LET p == pend[e.t] IN
          CASE e.err = "panic" -> "a call panicked"
            [] e.err = "NotExist" /\ p.op # "merge" /\ p.k \notin dc -> "a log that exists is not found"
            [] e.err = "NotExist" /\ p.op = "merge" /\ dc = {} -> "a log that exists is not found"
            [] e.err = "NotExist" -> ""
            [] e.err # "" -> "a call failed: " \o e.err
            [] p.op = "del" -> ""
            [] p.op # "merge" /\ p.k \in p.dr -> "a call on a deleted log succeeded"
            [] p.op = "append" /\ e.n # p.n -> "an append did not append its batch"
            [] p.op = "append" /\ Pos(p.k, p.first) = 0 -> "an acknowledged append is not in the log"
            [] p.op = "append" /\ \E x \in 0..(p.n - 1) : Pos(p.k, p.first + x) # Pos(p.k, p.first) + x -> "an append is not one contiguous run"
            [] p.op = "append" /\ Pos(p.k, p.first) <= p.lo[p.k] -> "an append took effect before it was called"
            [] p.op = "append" /\ ~e.ids -> "an append returned other IDs than its records have"
            [] p.op = "append" -> ""
            [] \E k \in Targets(p) : Matches(p, k, e) = {} -> "a read or count shows a state of the log that never existed"
            [] \E k \in Targets(p) : Fits(p, k, e) = {} -> "a read or count misses what was complete when it was called"
            [] p.op # "count" /\ ~e.ord -> "a read is not in the order of the record IDs"
            [] OTHER -> "")
    [] e.e = "quiet" -> (IF \E x \in DOMAIN pend : pend[x].op # "" THEN "a call waits for something that does not come" ELSE "")
    [] e.e = "hang" -> "a call does not return"
    [] OTHER -> "unknown event"

TInit == /\ t \in 1..Len(Traces) /\ i = 2
         /\ lo = [k \in 1..Traces[t][1].logs |-> 0] /\ called = {} /\ dc = {} /\ dr = {}
         /\ pend = [x \in 1..(Traces[t][1].n + 1) |-> Idle]
Max(a, b) == IF a > b THEN a ELSE b
TNext ==
  /\ i <= Len(Traces[t])
  /\ LET v == Verdict(E) IN IF v # "" THEN PrintT(<<"BAD", t, i, v>>) /\ FALSE ELSE TRUE
  /\ i' = i + 1 /\ UNCHANGED t
  /\ called' = IF E.e = "call" /\ E.op = "append" THEN called \cup {[k |-> E.k, from |-> E.first, to |-> E.first + E.n - 1]} ELSE called
  /\ lo' = IF E.e = "ret" /\ E.err = "" /\ pend[E.t].op # "del"
           THEN [k \in Logs |-> IF k \notin Targets(pend[E.t]) THEN lo[k]
                                ELSE IF pend[E.t].op = "append" THEN Max(lo[k], Pos(k, pend[E.t].first) + pend[E.t].n - 1)
                                ELSE Max(lo[k], Least(Fits(pend[E.t], k, E)))]
           ELSE lo
  /\ pend' = (CASE E.e = "call" -> [pend EXCEPT ![E.t] = [op |-> E.op, k |-> E.k, lo |-> lo, n |-> E.n, desc |-> E.desc, lim |-> E.lim,
                                                         first |-> E.first, dc |-> dc, dr |-> dr]]
                [] E.e = "ret" -> [pend EXCEPT ![E.t] = Idle]
                [] OTHER -> pend)
  /\ dc' = IF E.e = "call" /\ E.op = "del" THEN dc \cup {E.k} ELSE dc
  /\ dr' = IF E.e = "ret" /\ pend[E.t].op = "del" THEN dr \cup {pend[E.t].k} ELSE dr
TSpec == TInit /\ [][TNext]_tvars
Track == IF TLCGet(t) < i THEN TLCSet(t, i) ELSE TRUE
ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)
Report == \A k \in 1..Len(Traces) : PrintT(<<"REACHED", k, TLCGet(k), Len(Traces[k])>>)
=============================================================================

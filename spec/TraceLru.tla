------------------------------ MODULE TraceLru ------------------------------
(* C19: what a user of a value cache may observe. Checks executions of the real lru.Cache, ECache and ExpirableCache       *)
(* (harness/lruh): gets, removals and clears by several threads, the loads and the reports of deleted values.              *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i,
          val,      \* Seq over the values loaded, by ID: [k, lb, dead, rep, st]: key, start of its load, moment from which calls must
                    \* not return it (0: none), moment of its report (0: none), a removal was called during the load
          fl,       \* set of [t, k, lb, st]: loads in flight
          pend,     \* [thread -> "" or the pending call], with its start, key and what happened in it
          last,     \* [key -> last moment a load of it failed]
          order     \* one thread only: the values in the cache, least recently used first
vars == <<val, fl, pend, last, order>>
tvars == <<t, i, vars>>
E == Traces[t][i]
Cfg == Traces[t][1]
Solo == Cfg.n = 1
Exp == Cfg.kind = "exp"
Idle == [op |-> "", k |-> 0, i |-> 0, own |-> 0, dels |-> 0, st |-> FALSE]   \* own: the value the call loaded last, -1: its load failed; st: a removal of its key ran during the call
Vals == 1..Len(val)
Live == {v \in Vals : val[v].rep = 0}
LiveOf(k) == {v \in Live : val[v].k = k}
Others(x) == {y \in DOMAIN pend : y # x /\ pend[y].op # ""}
InOrder(v) == \E x \in 1..Len(order) : order[x] = v
AtKey(k) == {x \in 1..Len(order) : val[order[x]].k = k}
Removes(op, pk, k) == op \in {"rem", "clear"} /\ (op = "clear" \/ pk = k)
Busy(v) == \E y \in DOMAIN pend : pend[y].op # "" /\ pend[y].own = v     \* its loader has not returned yet

Verdict(e) ==
  CASE e.e = "lb" ->
         (CASE pend[e.t].op # "get" \/ pend[e.t].k # e.k -> "a value is loaded that nobody asks for"
            [] \E f \in fl : f.k = e.k /\ ~f.st -> "a key is loaded twice at the same time"
            [] Solo /\ AtKey(e.k) # {} -> "a key is loaded that is in the cache"
            [] ~Exp /\ Others(e.t) = {} /\ LiveOf(e.k) # {} -> "a key is loaded that is in the cache"
            [] OTHER -> "")
    [] e.e = "le" -> ""
    [] e.e = "lf" -> ""
    [] e.e = "del" ->
         (CASE e.v \notin Vals -> "an unknown value is reported as deleted"
            [] val[e.v].rep # 0 -> "a value is reported as deleted twice"
            [] val[e.v].k # e.k -> "a value is reported as deleted with a wrong key"
            [] pend[e.t].op = "" -> "a value is reported as deleted by nobody"
            [] Removes(pend[e.t].op, pend[e.t].k, e.k) -> ""
            [] pend[e.t].op = "rem" -> "a removal removed another key"
            [] Exp /\ e.k = pend[e.t].k /\ (val[e.v].dead # 0 \/ ~Solo) -> ""
            [] val[e.v].st -> ""
            [] Cardinality(Live) <= Cfg.max -> "a value is evicted though there is room"
            [] Solo /\ Head(order) # e.v -> "a value is evicted that is not the least recently used"
            [] OTHER -> "")
    [] e.e = "get" -> (IF pend[e.t].op # "" THEN "bad trace" ELSE "")
    [] e.e = "got" ->
         (LET p == pend[e.t] IN
          CASE e.err = "panic" -> "a lookup panicked"
            [] e.err = "" /\ e.v \notin Vals -> "a lookup returned what was not loaded"
            [] e.err = "" /\ val[e.v].k # p.k -> "a lookup returned the value of another key"
            [] e.err = "" /\ p.own = -1 -> "the failed load of a lookup is not reported"
            [] e.err = "" /\ val[e.v].dead # 0 /\ val[e.v].dead < p.i -> "a lookup returned a removed or expired value"
            [] e.err = "" /\ val[e.v].rep # 0 /\ val[e.v].rep < p.i -> "a lookup returned a value reported as deleted before"
            [] e.err = "" /\ ~Exp /\ p.own > 0 /\ e.v # p.own -> "a lookup returned something else than it loaded"
            [] e.err = "" /\ Solo /\ p.own = 0 /\ ~InOrder(e.v) -> "a lookup returned a value that is not in the cache"
            [] e.err = "" /\ Solo /\ Len(order) > Cfg.max -> "the cache holds more values than its maximum"
            [] e.err = "" -> ""
            [] e.err = "load" /\ (p.k \notin DOMAIN last \/ last[p.k] < p.i) -> "a load error is reported to a lookup whose load did not fail"
            [] e.err = "load" -> ""
            [] OTHER -> "unexpected error of a lookup: " \o e.err)
    [] e.e = "rem" -> ""
    [] e.e = "remd" ->
         (CASE e.err # "" -> "a removal failed: " \o e.err
            [] e.ok # (pend[e.t].dels > 0) -> "a removal reports wrongly whether it removed something"
            [] pend[e.t].dels > 1 -> "a removal removed several values"
            [] Solo /\ AtKey(pend[e.t].k) # {} -> "a removal left the value in the cache"
            [] OTHER -> "")
    [] e.e = "clear" -> ""
    [] e.e = "cleared" ->
         (CASE e.err # "" -> "a clear failed: " \o e.err
            [] e.n # pend[e.t].dels -> "a clear reports a wrong number of values"
            [] Solo /\ order # <<>> -> "a clear left values in the cache"
            [] OTHER -> "")
    [] e.e = "exp" -> ""
    [] e.e = "quiet" ->
         (CASE \E x \in DOMAIN pend : pend[x].op # "" -> "a call waits for something that does not come"
            [] Cardinality(Live) > Cfg.max -> "the cache holds more values than its maximum"
            [] \E v, w \in Live : v # w /\ val[v].k = val[w].k -> "two values of one key are in the cache"
            [] OTHER -> "")
    [] e.e = "end" -> (IF Live # {} THEN "a value is neither in the cache nor reported as deleted" ELSE "")
    [] e.e = "hang" -> "a call does not return"
    [] OTHER -> "unknown event"

TInit == /\ t \in 1..Len(Traces) /\ i = 2
         /\ val = <<>> /\ fl = {} /\ last = <<>> /\ order = <<>>
         /\ pend = [x \in 1..(Traces[t][1].n + 1) |-> Idle]
Set(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Cut(s, v) == SelectSeq(s, LAMBDA x : x # v)
RemKeys == IF E.e = "rem" THEN {E.k} ELSE IF E.e = "clear" THEN {pend[x].k : x \in DOMAIN pend} ELSE IF E.e = "get" /\ Exp THEN {E.k} ELSE {}
\* (a removal runs when a lookup of k is called)
Covered(k) == \E y \in DOMAIN pend : Removes(pend[y].op, pend[y].k, k) \/ (Exp /\ pend[y].op = "get" /\ pend[y].k = k)
\* a call that removes was made: loads in flight and lookups may be stale from now on
Stale(p) == [x \in DOMAIN p |-> IF p[x].op = "get" /\ p[x].k \in RemKeys THEN [p[x] EXCEPT !.st = TRUE] ELSE p[x]]
Taint(ks) == {[f EXCEPT !.st = f.st \/ f.k \in ks] : f \in fl}
Flight == CHOOSE f \in fl : f.t = E.t
Ret == IF E.e = "remd" THEN {v \in Vals : val[v].k = pend[E.t].k} ELSE IF E.e = "cleared" THEN Vals ELSE {}
TNext ==
  /\ i <= Len(Traces[t])
  /\ LET v == Verdict(E) IN IF v # "" THEN PrintT(<<"BAD", t, i, v>>) /\ FALSE ELSE TRUE
  /\ i' = i + 1 /\ UNCHANGED t
  /\ fl' = (CASE E.e = "lb" -> LET f == [t |-> E.t, k |-> E.k, lb |-> i, st |-> pend[E.t].st] IN fl \cup {f}
              [] E.e \in {"le", "lf"} -> {f \in fl : f.t # E.t}
              [] RemKeys # {} -> Taint(RemKeys)
              [] OTHER -> fl)
  /\ val' = (CASE E.e = "le" -> Append(val, [k |-> E.k, lb |-> Flight.lb, dead |-> IF E.old THEN i ELSE 0, rep |-> 0, st |-> Flight.st])
               [] E.e = "del" -> [val EXCEPT ![E.v].rep = i]
               [] E.e = "exp" -> [v \in Vals |-> IF (\E x \in 1..Len(E.vs) : E.vs[x] = v) /\ val[v].dead = 0 THEN [val[v] EXCEPT !.dead = i] ELSE val[v]]
               [] Ret # {} -> [v \in Vals |-> IF v \in Ret /\ val[v].dead = 0 /\ val[v].lb < pend[E.t].i THEN [val[v] EXCEPT !.dead = i] ELSE val[v]]
               [] RemKeys # {} -> [v \in Vals |-> IF Busy(v) /\ val[v].k \in RemKeys THEN [val[v] EXCEPT !.st = TRUE] ELSE val[v]]
               [] OTHER -> val)
  /\ last' = IF E.e = "lf" THEN Set(last, E.k, i) ELSE last
  /\ order' = (CASE ~Solo -> <<>>
                 [] E.e = "le" -> Append(order, E.v)
                 [] E.e = "del" -> Cut(order, E.v)
                 [] E.e = "got" /\ E.err = "" /\ InOrder(E.v) -> Append(Cut(order, E.v), E.v)
                 [] OTHER -> order)
  /\ pend' = (CASE E.e = "get" -> [Stale(pend) EXCEPT ![E.t] = [Idle EXCEPT !.op = "get", !.k = E.k, !.i = i, !.st = Covered(E.k)]]
                [] E.e = "rem" -> [Stale(pend) EXCEPT ![E.t] = [Idle EXCEPT !.op = "rem", !.k = E.k, !.i = i]]
                [] E.e = "clear" -> [Stale(pend) EXCEPT ![E.t] = [Idle EXCEPT !.op = "clear", !.i = i]]
                [] E.e \in {"got", "remd", "cleared"} -> [pend EXCEPT ![E.t] = Idle]
                [] E.e = "le" -> [pend EXCEPT ![E.t].own = E.v]
                [] E.e = "lf" -> [pend EXCEPT ![E.t].own = -1]
                [] E.e = "del" -> [pend EXCEPT ![E.t].dels = @ + 1]
                [] OTHER -> pend)

TSpec == TInit /\ [][TNext]_tvars
Track == IF TLCGet(t) < i THEN TLCSet(t, i) ELSE TRUE
ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)
Report == \A k \in 1..Len(Traces) : PrintT(<<"REACHED", k, TLCGet(k), Len(Traces[k])>>)
=============================================================================

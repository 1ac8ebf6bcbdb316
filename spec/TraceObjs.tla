----------------------------- MODULE TraceObjs -----------------------------
(* C23: histories of calls on an object store, recorded from the real code: every call takes effect at one moment *)
(* between its start and its return. The outcome of a call is known when it starts.                                *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
O == INSTANCE Objs WITH Keys <- {}, C <- {}, Vals <- {}, Locked <- TRUE, objs <- <<>>, pc <- <<>>, arg <- <<>>, rest <- <<>>,
                        acc <- <<>>, poss <- <<>>, bad <- FALSE

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i,
          st,    \* set of stored objects [k, v]
          pend,  \* [thread -> the call that goes on]
          todo   \* [thread -> it has not taken effect]
vars == <<st, pend, todo>>
tvars == <<t, i, vars>>
E == Traces[t][i]
Idle == [op |-> ""]
Keys == {x.k : x \in st}
Without(k) == {x \in st : x.k # k}
\* what a call may do: the set of the following contents
Effects(c) ==
  CASE c.op = "put" -> IF c.err = "" THEN {Without(c.k) \cup {[k |-> c.k, v |-> c.v]}} ELSE {st}
    [] c.op = "get" -> (CASE c.err = "" -> IF [k |-> c.k, v |-> c.v] \in st THEN {st} ELSE {}
                          [] c.err = "NotExist" -> IF c.k \notin Keys THEN {st} ELSE {}
                          [] OTHER -> {})
    [] c.op = "delete" -> IF c.err = "" \/ (c.err = "NotExist" /\ c.k \notin Keys) THEN {Without(c.k)} ELSE {}
    [] c.op = "list" -> IF c.err = "" /\ {[n |-> x.n, dir |-> x.dir] : x \in {c.res[j] : j \in 1..Len(c.res)}} = O!Under(Keys, c.k) THEN {st} ELSE {}
    [] OTHER -> {st}
Take(x) ==
  /\ i <= Len(Traces[t]) /\ E.e = "ret" /\ todo[x] /\ pend[x].done
  /\ \E s \in Effects(pend[x]) : st' = s
  /\ todo' = [todo EXCEPT ![x] = FALSE] /\ UNCHANGED <<t, i, pend>>
Verdict(e) ==
  CASE e.e = "call" -> ""
    [] e.e = "ret" -> LET c == pend[e.th] IN
                      (CASE c.err = "panic" -> "a call panicked"
                         [] c.op = "bad" /\ c.err = "" -> "a malformed key or path is accepted"
                         [] c.op = "bad" -> ""
                         [] c.op = "put" /\ c.fails /\ c.err = "" -> "a put succeeds although its source failed"
                         [] c.op = "put" /\ ~c.fails /\ c.err # "" -> "a put failed: " \o c.err
                         [] c.op = "delete" /\ c.err \notin {"", "NotExist"} -> "a delete failed: " \o c.err
                         [] c.op = "get" /\ c.err \notin {"", "NotExist"} -> "a get failed: " \o c.err
                         [] c.op = "list" /\ c.err # "" -> "a listing failed: " \o c.err
                         [] c.op = "get" /\ c.v < 0 -> "a get returns something that nobody stored"
                         [] c.op = "list" /\ c.dup -> "an entry is listed twice"
                         [] c.op = "list" /\ c.extra -> "a listing has something that is neither a key nor a path under it"
                         [] todo[e.th] -> "none"
                         [] OTHER -> "")
    [] e.e = "hang" -> "a call does not return"
    [] OTHER -> "unknown event"

TInit == /\ t \in 1..Len(Traces) /\ i = 2 /\ st = {}
         /\ pend = [x \in 1..Traces[t][1].n |-> Idle] /\ todo = [x \in 1..Traces[t][1].n |-> FALSE]
Advance ==
  /\ i <= Len(Traces[t])
  /\ LET v == Verdict(E) IN IF v = "none" THEN FALSE ELSE IF v # "" THEN PrintT(<<"BAD", t, i, v>>) /\ FALSE ELSE TRUE
  /\ i' = i + 1 /\ UNCHANGED <<t, st>>
  /\ pend' = (CASE E.e = "call" -> [pend EXCEPT ![E.th] = E.c] [] E.e = "ret" -> [pend EXCEPT ![E.th] = Idle] [] OTHER -> pend)
  /\ todo' = (CASE E.e = "call" -> [todo EXCEPT ![E.th] = TRUE] [] E.e = "ret" -> [todo EXCEPT ![E.th] = FALSE] [] OTHER -> todo)
TNext == Advance \/ \E x \in DOMAIN todo : Take(x)
TSpec == TInit /\ [][TNext]_tvars
Track == IF TLCGet(t) < i THEN TLCSet(t, i) ELSE TRUE
ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)
Report == \A k \in 1..Len(Traces) : PrintT(<<"REACHED", k, TLCGet(k), Len(Traces[k])>>)
=============================================================================

------------------------------ MODULE TraceRel ------------------------------
(* C10: what a user of the pool of shared releasable objects may observe. Checks executions of the real      *)
(* lru.ReleasableCache (harness/relh) against it.                                                           *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, i,
          max,       \* the capacity
          key,       \* [object -> key] of all objects ever created
          live,      \* objects created and not closed yet
          held,      \* [object -> number of holders]
          creating,  \* set of <<thread, key>>: creations in flight
          pend,      \* [thread -> 0 or the key it waits for]
          own,       \* [thread -> result of its own creation in the pending call: 0, -1 (failed) or an object]
          cancelled, \* threads whose context has ended
          closeCall, closeRet,
          late,      \* [thread -> its pending call started after the pool was closed]
          rels       \* [thread -> object being returned, or 0]
vars == <<max, key, live, held, creating, pend, own, cancelled, closeCall, closeRet, late, rels>>
tvars == <<t, i, vars>>
E == Traces[t][i]

Threads == DOMAIN pend
LiveOf(k) == {v \in live : key[v] = k}
Free == \A v \in live : held[v] > 0

Verdict(e) ==
  CASE e.e = "cb" ->
         (CASE pend[e.t] # e.k -> "an object is created that nobody asks for"
            [] LiveOf(e.k) # {} -> "a second object is created for a key that has a live one"
            [] \E c \in creating : c[2] = e.k -> "two creations for one key at the same time"
            [] Cardinality(live) + Cardinality(creating) >= max -> "more live objects than the maximum"
            [] late[e.t] -> "an object is created for a caller that came after the pool was closed"
            [] OTHER -> "")
    [] e.e = "ce" -> ""
    [] e.e = "cf" -> ""
    [] e.e = "del" ->
         (CASE e.v = 0 \/ e.v \notin DOMAIN key -> "close of an object that was never created"
            [] e.v \notin live -> "an object is closed twice"
            [] key[e.v] # e.k -> "close with a wrong key"
            [] held[e.v] > 0 -> "an object is closed while it is held"
            [] OTHER -> "")
    [] e.e = "get" -> ""
    [] e.e = "got" ->
         (CASE e.err = "panic" -> "get panicked"
            [] e.err = "" /\ e.v \notin live -> "a caller got an object that is not live"
            [] e.err = "" /\ key[e.v] # pend[e.t] -> "a caller got the object of another key"
            [] e.err = "" /\ late[e.t] -> "a caller got an object from the closed pool"
            [] e.err = "" -> ""
            [] e.err = "create" /\ own[e.t] # -1 -> "a caller got the creation error of somebody else"
            [] e.err = "create" -> ""
            [] e.err = "Closed" /\ ~closeCall -> "closed reported by an open pool"
            [] e.err = "Closed" /\ own[e.t] \in live -> "the object created for a caller that failed stays alive"
            [] e.err = "Closed" -> ""
            [] e.err = "Canceled" /\ e.t \notin cancelled -> "cancellation reported to a caller whose context is alive"
            [] e.err = "Canceled" -> ""
            [] OTHER -> "unexpected error of a get: " \o e.err)
    [] e.e = "rel" -> ""
    [] e.e = "reld" -> (IF e.err # "" THEN "release failed: " \o e.err ELSE "")
    [] e.e = "cancel" -> ""
    [] e.e = "close" -> ""
    [] e.e = "closed" -> (CASE e.err = "" -> (IF closeRet THEN "the pool was closed twice" ELSE "")
                            [] e.err = "Closed" -> (IF closeCall THEN "" ELSE "closed reported by an open pool")
                            [] OTHER -> "close failed: " \o e.err)
    [] e.e = "quiet" ->   \* nothing moves: whoever waits has a reason
         (CASE \E x \in Threads : rels[x] # 0 -> "a release does not end"
            [] \E x \in Threads : pend[x] # 0 /\ x \in cancelled -> "a caller waits although its context has ended"
            [] \E x \in Threads : pend[x] # 0 /\ closeRet -> "a caller waits although the pool is closed"
            [] \E x \in Threads : pend[x] # 0 /\ LiveOf(pend[x]) # {} -> "a caller waits for a key whose object is live"
            [] \E x \in Threads : pend[x] # 0 /\ (Cardinality(live) < max \/ ~Free) -> "a caller waits although there is room"
            [] closeRet /\ \E v \in live : held[v] = 0 -> "an object that nobody holds survived the close of the pool"
            [] OTHER -> "")
    [] e.e = "end" -> (CASE live # {} -> "an object was never closed"
                         [] \E x \in Threads : pend[x] # 0 -> "a caller never returned"
                         [] OTHER -> "")
    [] e.e = "hang" -> "a caller never returned"
    [] OTHER -> "unknown event"

Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

TInit == /\ t \in 1..Len(Traces) /\ i = 2
         /\ max = Traces[t][1].max
         /\ LET T == 1..(Traces[t][1].n + 1) IN
              /\ pend = [x \in T |-> 0] /\ own = [x \in T |-> 0] /\ late = [x \in T |-> FALSE] /\ rels = [x \in T |-> 0]
         /\ key = <<>> /\ held = <<>> /\ live = {} /\ creating = {} /\ cancelled = {}
         /\ closeCall = FALSE /\ closeRet = FALSE

TNext ==
  /\ i <= Len(Traces[t])
  /\ LET v == Verdict(E) IN IF v # "" THEN PrintT(<<"BAD", t, i, v>>) /\ FALSE ELSE TRUE
  /\ i' = i + 1 /\ UNCHANGED <<t, max>>
  /\ creating' = (CASE E.e = "cb" -> creating \cup {<<E.t, E.k>>}
                    [] E.e \in {"ce", "cf"} -> creating \ {<<E.t, E.k>>}
                    [] OTHER -> creating)
  /\ key' = IF E.e = "ce" THEN Set(key, E.v, E.k) ELSE key
  /\ held' = (CASE E.e = "ce" -> Set(held, E.v, 0)
                [] E.e = "got" /\ E.err = "" -> [held EXCEPT ![E.v] = @ + 1]
                [] E.e = "rel" -> [held EXCEPT ![E.v] = @ - 1]
                [] OTHER -> held)
  /\ live' = (CASE E.e = "ce" -> live \cup {E.v} [] E.e = "del" -> live \ {E.v} [] OTHER -> live)
  /\ pend' = (CASE E.e = "get" -> [pend EXCEPT ![E.t] = E.k] [] E.e = "got" -> [pend EXCEPT ![E.t] = 0] [] OTHER -> pend)
  /\ own' = (CASE E.e = "get" -> [own EXCEPT ![E.t] = 0]
               [] E.e = "ce" -> [own EXCEPT ![E.t] = E.v]
               [] E.e = "cf" -> [own EXCEPT ![E.t] = -1]
               [] OTHER -> own)
  /\ late' = IF E.e = "get" THEN [late EXCEPT ![E.t] = closeRet] ELSE late
  /\ rels' = (CASE E.e = "rel" -> [rels EXCEPT ![E.t] = E.v] [] E.e = "reld" -> [rels EXCEPT ![E.t] = 0] [] OTHER -> rels)
  /\ cancelled' = IF E.e = "cancel" THEN cancelled \cup {E.t} ELSE cancelled
  /\ closeCall' = (closeCall \/ E.e = "close")
  /\ closeRet' = (closeRet \/ (E.e = "closed" /\ E.err = ""))

TSpec == TInit /\ [][TNext]_tvars
Track == IF TLCGet(t) < i THEN TLCSet(t, i) ELSE TRUE
ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)
Report == \A k \in 1..Len(Traces) : PrintT(<<"REACHED", k, TLCGet(k), Len(Traces[k])>>)
=============================================================================

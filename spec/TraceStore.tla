----------------------------- MODULE TraceStore -----------------------------
(* C12, C13: what is stored stays, whatever the object store does and whenever the process dies. Record-level   *)
(* meaning: the state of a log is the sequence of its acknowledged records, followed by the records of the last  *)
(* append that was not acknowledged, of which any prefix may have been stored.                                   *)
(*   append {l, ids: acknowledged, tail: submitted but not acknowledged, err, f}                                 *)
(*   read   {l, ids, desc, err, f}      f: the object store failed, or the caller gave up, during the operation  *)
(*   count  {l, total, err}                                                                                      *)
(*   op     {k: up | sdel | down, err, f, sync: the remote copy is the local content that the operation saw}     *)
(*   obs    {c, loc: absent | same | differs, rem: whether the remote copy restores the chunk: absent | same | other} *)
(*   start  {err}                                                                                                *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, log, tail
vars == <<log, tail>>
tvars == <<t, i, vars>>
E == Traces[t][i]

Rev(s) == [j \in 1..Len(s) |-> s[Len(s) + 1 - j]]
States(l) == {log[l] \o SubSeq(tail[l], 1, n) : n \in 0..Len(tail[l])}
Got(e) == IF e.desc THEN Rev(e.ids) ELSE e.ids
IsPrefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

Verdict(e) ==
  CASE e.e = "append" -> (IF e.err = "panic" THEN "panic" ELSE IF e.err # "" /\ ~e.f THEN "an append failed: " \o e.err ELSE "")
    [] e.e = "read" ->
         (CASE e.err = "panic" -> "panic"
            [] e.err # "" -> (IF e.f THEN "" ELSE "acknowledged records cannot be read: " \o e.err)
            [] Got(e) \in States(e.l) -> ""
            [] \E j \in 1..Len(e.ids) : e.ids[j] < 0 -> "a damaged or foreign record was returned"
            [] IsPrefix(Got(e), log[e.l]) -> "acknowledged records are missing at the end"
            [] {log[e.l][j] : j \in 1..Len(log[e.l])} \ {e.ids[j] : j \in 1..Len(e.ids)} # {} -> "acknowledged records are missing"
            [] OTHER -> "records are repeated, foreign or out of order")
    [] e.e = "count" -> (IF e.err # "" THEN (IF e.f THEN "" ELSE "acknowledged records cannot be counted: " \o e.err)
                         ELSE IF \E s \in States(e.l) : Len(s) = e.total THEN "" ELSE "wrong number of records counted")
    [] e.e = "op" -> (CASE e.err = "panic" -> "panic"
                        [] e.err = "" /\ e.k \in {"up", "sdel"} /\ ~e.sync -> "an upload succeeded, but the remote copy does not restore the chunk"
                        [] e.err \notin {"", "Conflict"} /\ ~e.f /\ e.k = "sdel" /\ e.had -> "the chunk could not be synchronised: " \o e.err
                        [] e.err # "" /\ ~e.f /\ e.k = "up" /\ e.had -> "the chunk could not be uploaded: " \o e.err
                        [] OTHER -> "")
    [] e.e = "obs" -> (CASE e.loc = "absent" /\ e.rem # "same" -> "the local file is removed, but the remote copy does not restore it"
                         [] e.loc = "differs" -> "the local file has foreign or partial content"
                         [] OTHER -> "")
    [] e.e = "start" -> (IF e.err = "" THEN "" ELSE "the restart failed: " \o e.err)
    [] e.e = "end" -> ""
    [] OTHER -> "unknown event"

NL == Traces[t][1].n
TInit == t \in 1..Len(Traces) /\ i = 2 /\ log = [l \in 1..NL |-> <<>>] /\ tail = [l \in 1..NL |-> <<>>]
TNext ==
  /\ i <= Len(Traces[t])
  /\ LET v == Verdict(E) IN IF v # "" THEN PrintT(<<"BAD", t, i, v>>) /\ FALSE ELSE TRUE
  /\ i' = i + 1 /\ UNCHANGED t
  /\ CASE E.e = "append" ->
            \E s \in (IF E.ids = <<>> THEN {log[E.l]} ELSE States(E.l)) :
               /\ log' = [log EXCEPT ![E.l] = s \o E.ids]
               /\ tail' = [tail EXCEPT ![E.l] = IF E.ids = <<>> THEN @ \o E.tail ELSE E.tail]
       [] E.e = "read" /\ E.err = "" -> log' = [log EXCEPT ![E.l] = Got(E)] /\ tail' = [tail EXCEPT ![E.l] = <<>>]
       [] OTHER -> UNCHANGED vars
TSpec == TInit /\ [][TNext]_tvars
Track == IF TLCGet(t) < i THEN TLCSet(t, i) ELSE TRUE
ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)
Report == \A k \in 1..Len(Traces) : PrintT(<<"REACHED", k, TLCGet(k), Len(Traces[k])>>)
=============================================================================

------------------------------ MODULE TraceAcc ------------------------------
(* C11: access to chunk files as it can be observed. Checks executions of the real chunkfs.ChunkAccessor     *)
(* ("direct": open / write / del) and of chunkfs.Provider and Replicator on real files ("stack": get / up /   *)
(* down / sdel, plus write).                                                                                *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, i,
          hold,      \* set of <<thread, kind, chunk>>: accesses from their grant to the start of the release
          ins,       \* set of <<thread, kind, chunk>>: inside the exclusive part of an operation of the stack
          pend,      \* [thread -> <<>> or <<op, chunk>>]
          snap,      \* [thread -> write accesses held since before its pending call]
          act,       \* [thread -> kinds of access others had or asked for during its pending call]
          rel,       \* set of <<thread, kind, chunk>>: releases that have not returned
          cancelled, shutCall, shutRet, late,
          got        \* chunks that a provider may keep opened
vars == <<hold, ins, pend, snap, act, rel, cancelled, shutCall, shutRet, late, got>>
tvars == <<t, i, vars>>
E == Traces[t][i]
Th == DOMAIN pend

KindOf(op) == CASE op \in {"open", "get", "new"} -> "O" [] op \in {"write", "up", "down"} -> "W" [] OTHER -> "D"
HoldKind(op) == IF op \in {"get", "new"} THEN "H" ELSE KindOf(op)
Of(S, c) == {x \in S : x[3] = c}
Other(S, th, c) == {x \in S : x[3] = c /\ x[1] # th}
K(S) == {x[2] : x \in S}
Norm(ks) == {IF k = "H" THEN "O" ELSE k : k \in ks}

Granted(e) ==   \* e: a call that took the access
  LET k == KindOf(e.op)
      o == Other(hold \cup ins, e.t, e.c)
      mine == {x \in hold : x[1] = e.t /\ x[3] = e.c}
  IN CASE late[e.t] /\ e.op # "emp" -> "access granted after the shutdown"
       [] e.op = "open" /\ "D" \in K(o) -> "opened while it is being removed"
       [] e.op = "open" /\ "O" \in K(o) -> "two openers"
       [] e.op = "open" /\ snap[e.t] # {} -> "opened while it is being written"
       [] e.op \in {"get", "new"} /\ "D" \in K(o) -> "opened while it is being removed"
       [] e.op = "write" /\ K(o) \cap {"W", "D"} # {} -> "two exclusive accesses"
       [] e.op = "del" /\ o \cup mine # {} -> "removed while it is in use"
       [] OTHER -> ""

InVerdict(e) ==
  LET o == Other(hold \cup ins, e.t, e.c)
      mine == {x \in hold : x[1] = e.t /\ x[3] = e.c}
  IN CASE e.k = "W" /\ K(o) \cap {"W", "D"} # {} -> "two exclusive accesses"
       [] e.k = "D" /\ o # {} -> "removed while it is in use"
       [] e.k = "D" /\ mine # {} -> "removed while it is in use"
       [] OTHER -> ""

Refused(e) ==
  LET a == act[e.t] IN
  CASE e.err = "Canceled" -> (IF e.t \in cancelled THEN "" ELSE "cancellation reported to a caller whose context is alive")
    [] e.err = "Closed" -> (IF shutCall THEN "" ELSE "closed reported by an open access control")
    [] e.err = "NotExist" /\ e.op \in {"open", "write", "get", "new", "up", "down"} ->
         (IF "D" \in a THEN "" ELSE "refused as being removed, but nobody removes it")
    [] e.err = "Internal" /\ e.op = "open" -> (IF "O" \in a THEN "" ELSE "refused as opened, but nobody has opened it")
    [] e.err = "Conflict" /\ e.op \in {"del", "sdel"} ->
         (IF a # {} \/ shutCall \/ e.c \in got THEN "" ELSE "removal refused although nobody uses it")
    \* no copy to work on: legal unless a copy must exist (one exists at the start, and sdel removes only what it uploaded)
    [] e.err = "NoLocal" /\ e.op \in {"up", "sdel"} -> ""
    [] e.err = "NoRemote" /\ e.op = "down" -> ""
    \* the new file was removed as an empty one before it was opened
    [] e.err \in {"NoRemote", "NoLocal"} /\ e.op = "new" /\ ("D" \in a \/ shutCall) -> ""
    [] OTHER -> "unexpected error of " \o e.op \o ": " \o e.err

Waits(x) == pend[x] # <<>>
QuietVerdict ==
  CASE rel # {} -> "a release does not end"
    [] \E x \in Th : Waits(x) /\ x \in cancelled -> "a caller waits although its context has ended"
    [] \E x \in Th : Waits(x) /\ shutRet -> "a caller waits although the access control is shut down"
    [] \E x \in Th : Waits(x) /\ ~(\E h \in hold : h[2] = "W" /\ h[3] = pend[x][2])
                     \* the room of the provider is taken: by chunks in use, or by one that is being opened and has to wait
                     /\ ~(/\ pend[x][1] \in {"get", "new"}
                          /\ \/ \E h \in hold : h[2] = "H"
                             \/ \E y \in Th \ {x} : /\ Waits(y) /\ pend[y][1] \in {"get", "new"}
                                                    /\ \E h \in hold : h[2] = "W" /\ h[3] = pend[y][2]) -> "a caller waits although nothing blocks it"
    [] OTHER -> ""

Verdict(e) ==
  CASE e.e = "call" -> ""
    [] e.e = "ret" -> (IF e.err = "" THEN
                          (IF e.data # "" THEN "the content of the chunk is wrong: " \o e.data
                           ELSE IF e.op = "sdel" /\ \E x \in snap[e.t] : TRUE THEN "removed while it is in use"
                           ELSE Granted(e))
                       ELSE IF e.err = "panic" THEN "panic" ELSE Refused(e))
    [] e.e = "bad" -> "the content of the chunk is wrong: " \o e.what
    [] e.e = "in" -> InVerdict(e)
    [] e.e = "reld" -> (IF e.err = "" THEN "" ELSE "a release failed: " \o e.err)
    [] e.e = "quiet" -> QuietVerdict
    [] e.e = "end" -> (IF \E x \in Th : Waits(x) THEN "a caller never returned" ELSE "")
    [] e.e = "hang" -> "a caller never returned"
    [] e.e \in {"out", "rel", "cancel", "shut", "shutd"} -> ""
    [] OTHER -> "unknown event"

TInit == /\ t \in 1..Len(Traces) /\ i = 2
         /\ LET T == 1..(Traces[t][1].n + 1) IN
              /\ pend = [x \in T |-> <<>>] /\ snap = [x \in T |-> {}] /\ act = [x \in T |-> {}] /\ late = [x \in T |-> FALSE]
         /\ hold = {} /\ ins = {} /\ rel = {} /\ cancelled = {} /\ got = {} /\ shutCall = FALSE /\ shutRet = FALSE

Took(e) == e.e = "ret" /\ e.err = "" /\ e.op \in {"open", "get", "new", "write", "del"}
Busy(e) == Norm(K(Other(hold \cup ins \cup rel, e.t, e.c)))
           \cup {KindOf(pend[x][1]) : x \in {y \in Th : y # e.t /\ pend[y] # <<>> /\ pend[y][2] = e.c}}
           \cup Norm(K({x \in hold \cup rel : x[1] = e.t /\ x[3] = e.c}))

TNext ==
  /\ i <= Len(Traces[t])
  /\ LET v == Verdict(E) IN IF v # "" THEN PrintT(<<"BAD", t, i, v>>) /\ FALSE ELSE TRUE
  /\ i' = i + 1 /\ UNCHANGED t
  /\ hold' = (CASE Took(E) -> hold \cup {<<E.t, HoldKind(E.op), E.c>>}
                [] E.e = "rel" -> hold \ {<<E.t, E.k, E.c>>}
                [] OTHER -> hold)
  /\ ins' = (CASE E.e = "in" -> ins \cup {<<E.t, E.k, E.c>>} [] E.e = "out" -> ins \ {<<E.t, E.k, E.c>>} [] OTHER -> ins)
  /\ rel' = (CASE E.e = "rel" -> rel \cup {<<E.t, E.k, E.c>>} [] E.e = "reld" -> rel \ {<<E.t, E.k, E.c>>} [] OTHER -> rel)
  /\ pend' = (CASE E.e = "call" -> [pend EXCEPT ![E.t] = <<E.op, E.c>>] [] E.e = "ret" -> [pend EXCEPT ![E.t] = <<>>] [] OTHER -> pend)
  /\ snap' = (CASE E.e = "call" -> [snap EXCEPT ![E.t] = {x \in hold : x[3] = E.c /\ (IF E.op = "open" THEN x[2] = "W" ELSE x[2] \in {"W", "O", "H", "D"})}]
                [] E.e = "rel" -> [x \in Th |-> snap[x] \ {<<E.t, E.k, E.c>>}]
                [] E.e = "ret" -> [snap EXCEPT ![E.t] = {}]
                [] OTHER -> snap)
  /\ act' = (CASE E.e = "call" -> [x \in Th |-> IF x = E.t THEN Busy(E)
                                                ELSE IF pend[x] # <<>> /\ pend[x][2] = E.c THEN act[x] \cup {KindOf(E.op)} ELSE act[x]]
               [] OTHER -> act)
  /\ late' = IF E.e = "call" THEN [late EXCEPT ![E.t] = shutRet] ELSE late
  /\ cancelled' = IF E.e = "cancel" THEN cancelled \cup {E.t} ELSE cancelled
  /\ shutCall' = (shutCall \/ E.e = "shut") /\ shutRet' = (shutRet \/ E.e = "shutd")
  /\ got' = IF E.e = "call" /\ E.op \in {"get", "new"} THEN got \cup {E.c} ELSE got

TSpec == TInit /\ [][TNext]_tvars
Track == IF TLCGet(t) < i THEN TLCSet(t, i) ELSE TRUE
ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)
Report == \A k \in 1..Len(Traces) : PrintT(<<"REACHED", k, TLCGet(k), Len(Traces[k])>>)
=============================================================================

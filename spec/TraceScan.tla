----------------------------- MODULE TraceScan -----------------------------
(* C20: recorded histories of the background synchronisation. scan .. end is one scan (or several, if the store was so slow  *)
(* that the next one was due at once), with what was on the disk before and after it and what was copied.                    *)
(*   known: the chunks that were surely copied since they changed and of which the scanner must know that                    *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, cfg, known, sc
vars == <<cfg, known, sc>>
tvars == <<t, i, vars>>
E == Traces[t][i]
Set(s) == {s[k] : k \in DOMAIN s}
None == [t |-> 0, files |-> {}, ok |-> {}, failed |-> {}, held |-> {}, slow |-> FALSE]
File(c) == CHOOSE f \in sc.files : f.c = c
Has(c) == \E f \in sc.files : f.c = c
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET f == CHOOSE f \in S : TRUE IN f.size + Sum(S \ {f})
Dir(d) == {f \in sc.files : f.dir = d}
Over(d) == Sum(Dir(d)) >= cfg.max
Young(f, now) == now - f.mt < cfg.thr - 1000
Idle(f, now) == now - f.mt >= cfg.thr + 1000

PutV(e) ==
  CASE e.c = 0 \/ ~Has(e.c) -> "something that is not a local chunk was copied"
    [] ~Over(File(e.c).dir) /\ Young(File(e.c), e.t) -> "a chunk was copied before it was idle long enough"
    [] ~Over(File(e.c).dir) /\ e.c \in known \cup sc.ok -> "a chunk was copied again though it did not change"
    [] OTHER -> ""

Held(f) == f.held \/ f.c \in sc.held
DirV(d, e) ==
  LET fs == Dir(d)
      gone == {f \in fs : f.c \notin Set(e.present)}
      free == {f \in fs \ gone : ~Held(f) /\ f.c \notin sc.failed}   \* could have been removed
      left == Sum(fs \ gone)
      newest == CHOOSE f \in gone : \A g \in gone : g.mt <= f.mt
  IN CASE \E f \in gone : f.c \notin Set(e.rem) -> "a chunk was removed that was not copied safely"
       [] \E f \in gone : Held(f) -> "a chunk was removed while it was in use"
       [] gone # {} /\ ~Over(d) -> "a chunk was removed though there was space enough"
       [] ~sc.slow /\ \E f \in gone, g \in free : g.mt < f.mt -> "a chunk was removed though an older one could be"
       [] ~sc.slow /\ gone # {} /\ left + newest.size < cfg.min -> "more chunks were removed than needed"
       [] ~e.stop /\ ~sc.slow /\ Over(d) /\ left >= cfg.min /\ free # {} -> "the space was not freed"
       [] \E f \in fs \ gone : f.c \in sc.ok \cap known /\ ~sc.slow -> "a chunk was copied again though it did not change"
       [] \E f \in fs \ gone : f.c \in sc.ok /\ f.c \notin Set(e.rem) -> "the copy of a chunk differs from the chunk"
       [] ~e.stop /\ \E f \in fs \ gone : Idle(f, sc.t) /\ f.c \notin Set(e.rem) /\ f.c \notin sc.failed -> "an idle chunk was not copied"
       [] OTHER -> ""
First(S) == IF S = {} THEN "" ELSE CHOOSE v \in S : TRUE
EndV(e) ==
  CASE ~e.ended -> "the scanner does not come to rest or does not stop"
    [] e.dead -> "the scanner ended by itself"
    [] e.late > cfg.workers - 1 -> "the scanner goes on with its work after it was stopped"
    [] OTHER -> First({DirV(d, e) : d \in {f.dir : f \in sc.files}} \ {""})

Verdict(e) ==
  CASE e.e = "put" -> PutV(e)
    [] e.e = "end" -> EndV(e)
    [] e.e = "del" -> "a remote copy was deleted"
    [] e.e = "stop" -> IF e.ended THEN "" ELSE "the scanner does not stop"
    [] e.e = "read" -> (IF e.err # "" THEN "a chunk cannot be read" ELSE IF ~e.same THEN "the content of a chunk changed" ELSE "")
    [] e.e = "app" -> IF e.err \notin {"", "Exhausted"} THEN "a chunk cannot be used" ELSE ""
    [] e.e = "hold" -> IF e.err # "" /\ ~e.scan THEN "a chunk cannot be opened" ELSE ""
    [] OTHER -> ""

TInit == t \in 1..Len(Traces) /\ i = 1 /\ cfg = [thr |-> 0] /\ known = {} /\ sc = None
TNext ==
  /\ i <= Len(Traces[t])
  /\ LET v == Verdict(E) IN IF v # "" THEN PrintT(<<"BAD", t, i, v>>) /\ FALSE ELSE TRUE
  /\ i' = i + 1 /\ UNCHANGED t
  /\ cfg' = IF E.e = "cfg" THEN E ELSE cfg
  /\ known' = (CASE E.e = "app" /\ E.w > 0 -> known \ {E.c}
                 [] E.e \in {"read", "hold", "app"} /\ E.err = "" /\ ~E.had -> known \cup {E.c}
                 [] E.e = "end" -> IF E.stop THEN {} ELSE (known \cup sc.ok) \cap Set(E.present)
                 [] E.e \in {"crash", "garble"} -> {}
                 [] OTHER -> known)
  /\ sc' = (CASE E.e = "scan" -> [None EXCEPT !.t = E.t, !.files = Set(E.files)]
              [] E.e = "put" -> [sc EXCEPT !.ok = IF E.ok THEN @ \cup {E.c} ELSE @, !.failed = IF E.ok THEN @ ELSE @ \cup {E.c},
                                           !.slow = @ \/ E.k \in {"slow", "outage"}]
              [] E.e = "hold" /\ E.scan /\ E.err = "" -> [sc EXCEPT !.held = @ \cup {E.c}]
              [] OTHER -> sc)
TSpec == TInit /\ [][TNext]_tvars
Track == IF TLCGet(t) < i THEN TLCSet(t, i) ELSE TRUE
ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)
Report == \A k \in 1..Len(Traces) : PrintT(<<"REACHED", k, TLCGet(k), Len(Traces[k])>>)
=============================================================================

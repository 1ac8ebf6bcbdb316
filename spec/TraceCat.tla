------------------------------ MODULE TraceCat ------------------------------
(* C07, C08: recorded histories of the log catalogue against its meaning: create, update and delete exactly; a log is *)
(* selected iff the expression is true for it; a page walk returns every log that matched throughout exactly once.    *)
(* A log is named by the number of its creation, 0 is an ID that was never given.                                     *)
EXTENDS QL, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, st, recs, id, tags, ct, ut, walks
\* st[l]: live | deleted (marked) | gone;  recs[l]: number of records
vars == <<st, recs, id, tags, ct, ut, walks>>
tvars == <<t, i, vars>>
E == Traces[t][i]
N == Len(st)
Live == {l \in 1..N : st[l] = "live"}
SetOf(s) == {s[j] : j \in 1..Len(s)}
Pairs(s) == {<<s[j].k, s[j].v>> : j \in 1..Len(s)}
SelIn(a, S, tg) == {l \in S : Sat(a, [id |-> id[l], tags |-> tg[l]])}
Sel(a, S) == SelIn(a, S, tags)
Lim(n) == IF n <= 0 THEN 50 ELSE IF n > 1000 THEN 1000 ELSE n
Dup(s) == Cardinality(SetOf(s)) # Len(s)
Max == 50    \* so many logs can be merged for sure
MustFail(e, c) == IF e.err = "" THEN (IF c = "bad" THEN "an invalid expression was accepted" ELSE "") ELSE IF e.err = "Invalid" /\ c # "ok" THEN ""
                  ELSE IF e.err = "panic" THEN "panic" ELSE IF c = "ok" THEN "a valid expression was refused: " \o e.err ELSE "an invalid expression was not refused as invalid but: " \o e.err
Exists(e) == e.l \in Live
NotFound(e) == IF e.err = "NotExist" THEN "" ELSE IF e.err = "" THEN "succeeded for a log that does not exist" ELSE "not refused as not found but: " \o e.err

\* the logs the walk may list now
RangeIn(w, s) == {l \in 1..Len(s) : s[l] = "live" \/ (w.gone /\ s[l] = "deleted")}
HitsIn(w, s, tg) == IF w.byids THEN w.ls \cap RangeIn(w, s) ELSE SelIn(w.a, RangeIn(w, s), tg)
Range(w) == RangeIn(w, st)
Hits(w) == HitsIn(w, st, tags)
Same(g) == g.rl # 0 /\ Pairs(g.tags) = tags[g.rl] /\ g.ct = ct[g.rl] /\ g.ut = ut[g.rl]
NewWalk(e) == [byids |-> e.byids, gone |-> e.gone, ls |-> IF e.byids THEN SetOf(e.ls) ELSE {}, a |-> IF e.byids THEN [t |-> "true"] ELSE Parse(e.toks), seen |-> {}, must |-> {}, on |-> TRUE]
Walk(e) == IF e.start THEN LET w == NewWalk(e) IN IF ~w.byids /\ Check(w.a) # "ok" THEN w ELSE [w EXCEPT !.must = Hits(w)] ELSE walks[e.w]
Known(e) == e.start \/ walks[e.w].on      \* the walk of a doubtful expression is not followed
Got(e) == [j \in 1..Len(e.logs) |-> e.logs[j].rl]
PageV(e) ==
  LET w == Walk(e) c == IF w.byids THEN "ok" ELSE Check(w.a) g == Got(e) IN
  IF e.err # "" \/ c = "bad" THEN MustFail(e, c) ELSE IF c = "doubt" THEN ""
  ELSE LET H == Hits(w) IN
    CASE 0 \in SetOf(g) -> "an unknown log is listed"
      [] ~(SetOf(g) \subseteq Range(w)) -> "a deleted log is listed"
      [] ~(SetOf(g) \subseteq H) -> "a log is listed that is not selected"
      [] Dup(g) \/ SetOf(g) \cap w.seen # {} -> "a log is listed twice"
      [] Len(g) > Lim(e.lim) -> "more logs in a page than requested"
      [] \E j \in 1..Len(g) : ~(IF st[g[j]] = "live" THEN Same(e.logs[j]) ELSE Pairs(e.logs[j].tags) = tags[g[j]]) -> "a log is listed with wrong contents"
      [] e.total # Cardinality(H) -> "the number of selected logs is wrong"
      [] e.next /\ g = <<>> -> "an empty page with a next page"
      [] ~e.next /\ ~(w.must \subseteq w.seen \cup SetOf(g)) -> "a selected log is not listed"
      [] OTHER -> ""
Verdict(e) ==
  CASE e.e = "create" -> (CASE e.err # "" -> "a log could not be created: " \o e.err
                            [] ~e.fresh -> "the ID of a created log is not new"
                            [] Pairs(e.tags) # Pairs(e.req) -> "a log was created with other tags"
                            [] OTHER -> "")
    [] e.e = "update" -> (IF ~Exists(e) THEN NotFound(e) ELSE
                          CASE e.err # "" -> "an update failed: " \o e.err
                            [] e.rl # e.l \/ Pairs(e.tags) # Pairs(e.req) -> "an update returned something else"
                            [] e.ct # ct[e.l] -> "an update changed the creation time"
                            [] e.ut < ut[e.l] -> "the update time stepped back"
                            [] OTHER -> "")
    [] e.e = "get" -> (IF ~Exists(e) THEN NotFound(e) ELSE IF e.err # "" THEN "a log is not found: " \o e.err
                       ELSE IF e.rl # e.l \/ ~Same(e) THEN "a log is returned with wrong contents" ELSE "")
    [] e.e = "page" -> IF Known(e) THEN PageV(e) ELSE ""
    [] e.e = "del" ->
        (LET a == Parse(e.toks) c == Check(a)
             S == IF e.blank THEN {} ELSE Sel(a, IF e.mark THEN Live ELSE {l \in 1..N : st[l] # "gone"}) IN
         IF e.err # "" \/ c = "bad" THEN MustFail(e, c)
         ELSE CASE Dup(e.ids) -> "a log is reported twice as deleted"
                [] SetOf(e.ids) # S -> "the deleted logs are not the selected ones"
                [] OTHER -> "")
    [] e.e = "sdel" ->
        (IF e.err = "panic" THEN "panic" ELSE
         IF e.mark THEN (IF ~(SetOf(e.ls) \subseteq Live) \/ Dup(e.ls) THEN (IF e.err \in {"", "NotExist"} /\ (e.err = "" => Dup(e.ls) /\ SetOf(e.ls) \subseteq Live) THEN "" ELSE "deletion of an unknown log: " \o e.err)
                         ELSE IF e.err # "" THEN "a deletion failed: " \o e.err ELSE IF SetOf(e.ids) # SetOf(e.ls) \/ Dup(e.ids) THEN "other logs are deleted" ELSE "")
         ELSE IF e.err # "" THEN "a deletion failed: " \o e.err
         ELSE IF SetOf(e.ids) # {l \in SetOf(e.ls) : l # 0 /\ l <= N /\ st[l] # "gone"} \/ Dup(e.ids) THEN "other logs are deleted" ELSE "")
    [] e.e = "app" -> (IF ~Exists(e) THEN NotFound(e) ELSE IF e.err # "" \/ e.added # 1 THEN "an append failed: " \o e.err ELSE "")
    [] e.e = "read" ->
        (LET a == Parse(e.toks) c == Check(a) IN
         IF c = "ok" /\ Cardinality(Sel(a, Live)) > Max /\ e.err = "Exhausted" THEN ""
         ELSE IF e.err # "" \/ c = "bad" THEN MustFail(e, c) ELSE IF c = "doubt" THEN ""
         ELSE LET S == Sel(a, Live) IN
              IF e.foreign # 0 THEN "foreign records are read"
              ELSE IF \E l \in 1..N : e.cnt[l] # (IF l \in S THEN recs[l] ELSE 0) THEN "records are read from other logs than the selected ones" ELSE "")
    [] e.e = "readid" ->
        (CASE e.err = "panic" -> "panic"
           [] ~(SetOf(e.ls) \subseteq Live) -> (IF e.err = "" /\ (\E l \in 1..N : e.cnt[l] > 0 /\ l \notin Live) THEN "records of a deleted log are read"
                                                 ELSE IF e.err \notin {"", "NotExist"} THEN "not refused as not found but: " \o e.err ELSE "")
           [] e.err # "" -> "records cannot be read: " \o e.err
           [] \E l \in 1..N : e.cnt[l] # (IF l \in SetOf(e.ls) THEN recs[l] ELSE 0) -> "records are read from other logs than the given ones"
           [] OTHER -> "")
    [] e.e = "deep" ->
        (LET a == Parse(e.toks) c == Check(a) IN
         IF e.err = "Invalid" /\ e.n > 100 THEN "" ELSE IF e.err # "" \/ c = "bad" THEN MustFail(e, c)
         ELSE IF c = "ok" /\ SetOf(e.ids) # Sel(a, Live) THEN "parentheses change the meaning" ELSE "")
    [] e.e = "text" -> (IF e.err \in {"", "Invalid"} THEN "" ELSE "a text was not refused as invalid but: " \o e.err)
    [] e.e = "odd" -> (IF e.status >= 400 /\ e.status < 500 THEN "" ELSE "a malformed request was not refused: " \o e.text)
    [] e.e = "reopen" -> (IF e.err = "" THEN "" ELSE "the catalogue cannot be opened again: " \o e.err)
    [] e.e = "end" -> ""
    [] OTHER -> "unknown event"

TInit == t \in 1..Len(Traces) /\ i = 1 /\ st = <<>> /\ recs = <<>> /\ id = <<>> /\ tags = <<>> /\ ct = <<>> /\ ut = <<>> /\ walks = [w \in 1..3 |-> [on |-> FALSE]]
\* after a change: what the walks must still list
Keep(s, tg) == walks' = [w \in 1..3 |-> IF walks[w].on THEN [walks[w] EXCEPT !.must = @ \cap HitsIn(walks[w], s, tg)] ELSE walks[w]]
DelSet(e) == SetOf(e.ids) \ {0}
TNext ==
  /\ i <= Len(Traces[t])
  /\ LET v == Verdict(E) IN IF v # "" THEN PrintT(<<"BAD", t, i, v>>) /\ FALSE ELSE TRUE
  /\ i' = i + 1 /\ UNCHANGED t
  /\ CASE E.e = "create" -> /\ st' = Append(st, "live") /\ recs' = Append(recs, 0) /\ id' = Append(id, E.id) /\ tags' = Append(tags, Pairs(E.tags))
                            /\ ct' = Append(ct, E.ct) /\ ut' = Append(ut, E.ut) /\ UNCHANGED walks
       [] E.e = "update" /\ E.err = "" -> /\ tags' = [tags EXCEPT ![E.l] = Pairs(E.tags)] /\ ut' = [ut EXCEPT ![E.l] = E.ut]
                                          /\ UNCHANGED <<st, recs, id, ct>> /\ Keep(st, tags')
       [] E.e \in {"del", "sdel"} /\ E.err = "" ->
            /\ st' = [l \in 1..N |-> IF l \in DelSet(E) THEN (IF E.mark THEN "deleted" ELSE "gone") ELSE st[l]]
            /\ UNCHANGED <<recs, id, tags, ct, ut>> /\ Keep(st', tags)
       [] E.e = "app" /\ E.err = "" -> recs' = [recs EXCEPT ![E.l] = @ + 1] /\ UNCHANGED <<st, id, tags, ct, ut, walks>>
       [] E.e = "page" /\ Known(E) -> /\ LET w == Walk(E) IN walks' = [walks EXCEPT ![E.w] = IF E.err # "" \/ ~E.next \/ Check(w.a) # "ok" THEN [on |-> FALSE] ELSE [w EXCEPT !.seen = @ \cup SetOf(Got(E))]]
                          /\ UNCHANGED <<st, recs, id, tags, ct, ut>>
       [] OTHER -> UNCHANGED vars
TSpec == TInit /\ [][TNext]_tvars
Track == IF TLCGet(t) < i THEN TLCSet(t, i) ELSE TRUE
ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)
Report == \A k \in 1..Len(Traces) : PrintT(<<"REACHED", k, TLCGet(k), Len(Traces[k])>>)
=============================================================================

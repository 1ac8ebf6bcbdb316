------------------------------ MODULE TraceLog ------------------------------
(* checks executions recorded from the real stack (harness/logh) against the record-level meaning of       *)
(* SolarisLog; each trace is a sequence of events, all of them deterministic for the specification          *)
EXTENDS SolarisLog, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, i, log, mc
tvars == <<t, i, log, mc>>

E == Traces[t][i]

\* the property being decided; a verdict that belongs to another property is reported but does not stop the trace
Prop == IF "PROP" \in DOMAIN IOEnv THEN IOEnv.PROP ELSE "ALL"

\* a record as read: <<log, content, id, ms, createdAt>>
AsRead(l, r) == <<l, r.tok, r.id, r.ms, r.ms>>
ReadAll(l, rs) == [k \in 1..Len(rs) |-> AsRead(l, rs[k])]

Merge(ls) == SortSeq(FlattenSeq([k \in 1..Len(ls) |-> [j \in 1..Len(log[ls[k]]) |-> log[ls[k]][j] @@ [log |-> ls[k]]]]),
                     LAMBDA a, b : a.id < b.id)
ReadOf(rs) == [k \in 1..Len(rs) |-> AsRead(rs[k].log, rs[k])]

Lens(ev) == [k \in 1..Len(ev.lens) |-> ev.lens[k]]
AccN(lens) == LET RECURSIVE A(_)
                  A(k) == IF k > Len(lens) \/ Hdr + Meta + lens[k] > mc THEN k - 1 ELSE A(k + 1)
              IN A(1)

\* ---- append: the log becomes old content ++ the accepted prefix, as the read after it shows
AppendVerdict(ev) ==
  LET old == log[ev.log]
      n   == AccN(ev.lens)
      a   == ev.after
      m   == Len(old)
      an  == Len(a) - m          \* records the log has gained
  IN CASE ev.err = "panic" -> "append panicked"
       [] ev.cancel > 0 /\ ev.err \notin {"", "Invalid"} /\ ev.aerr = "" /\ an >= 0 /\ an <= n
            /\ SubSeq(a, 1, m) = ReadAll(ev.log, old)
            /\ (\A k \in 1..an : a[m + k][1] = ev.log /\ a[m + k][2] = ev.toks[k]) -> ""
       [] ev.cancel > 0 /\ ev.err = "" /\ ev.added # an -> "append reported a wrong number of added records"
       [] ev.cancel > 0 /\ ev.err = "" /\ ev.aerr = "" /\ an >= 0 /\ an < n /\ SubSeq(a, 1, m) = ReadAll(ev.log, old)
            /\ (\A k \in 1..an : a[m + k][1] = ev.log /\ a[m + k][2] = ev.toks[k]) -> ""
       [] ev.aerr # "" -> "read after append failed: " \o ev.aerr
       [] n = 0 /\ ev.err = "" /\ Len(ev.lens) > 0 -> "append of a record that fits no chunk reported success"
       [] n = 0 /\ ev.err \notin {"Invalid"} /\ Len(ev.lens) > 0 -> "append of a record that fits no chunk not refused as invalid: " \o ev.err
       [] n > 0 /\ ev.err # "" -> "append failed although its first record fits: " \o ev.err
       [] n > 0 /\ ev.added # n -> "append reported a wrong number of added records"
       [] Len(a) # m + n -> "log does not hold old content plus the added records"
       [] SubSeq(a, 1, m) # ReadAll(ev.log, old) -> "append changed earlier records"
       [] \E k \in 1..n : a[m + k][1] # ev.log \/ a[m + k][2] # ev.toks[k] -> "an added record differs from what was appended"
       [] \E k \in 1..n : a[m + k][4] # a[m + k][5] \/ a[m + k][4] < 0 -> "creation time differs from the record id time"
       [] \E k \in 2..(m + n) : a[k - 1][3] >= a[k][3] -> "record ids do not increase"
       [] ev.expand /\ n > 0 /\ ev.rids # [k \in 1..n |-> a[m + k][3]] -> "returned ids are not those of the added records"
       [] OTHER -> ""
\* the log as the read after the append shows it (equal to old content ++ added records when the verdict is good)
AfterAppend(ev) == [log EXCEPT ![ev.log] =
   LET m == Len(@)
       old == @ IN
   IF ev.aerr # "" THEN old
   ELSE [k \in 1..Len(ev.after) |-> IF k <= m /\ old[k].id = ev.after[k][3] /\ old[k].tok = ev.after[k][2] THEN old[k]
           ELSE Rec(ev.after[k][3], ev.after[k][4], ev.alens[k], ev.after[k][2])]]

\* ---- query
QueryVerdict(ev) ==
  LET exp == Expected(Merge(ev.logs), ev.start, ev.desc, ev.cond)
      eread == ReadOf(exp)
      n == Len(ev.res)
  IN CASE ev.err = "panic" -> "query panicked"
       [] ev.raised /\ ev.err = "" -> "query succeeded although reading a log failed"
       [] ev.fault # "" /\ ev.err # "" -> ""
       [] ev.cond.k = "bad" -> (IF ev.err = "Invalid" THEN "" ELSE "invalid condition not refused as invalid: " \o ev.err)
       [] ev.limit <= 0 -> (IF ev.err = "" /\ n > 0 THEN "records returned for a non-positive limit" ELSE "")
       [] ev.err # "" -> "query failed: " \o ev.err
       [] n > ev.limit -> "page larger than the limit"
       [] n > Len(exp) -> "more records than expected"
       [] \E k \in 1..n : ev.res[k] # eread[k] -> "page is not a prefix of the expected records"
       [] n = 0 /\ exp # <<>> -> "empty page although records match"
       [] Ahead(exp, ev.next, ev.desc) # SubSeq(exp, n + 1, Len(exp)) -> "page token does not lead to exactly the rest"
       [] OTHER -> ""

CountVerdict(ev) ==
  LET all == Merge(ev.logs) IN
  CASE ev.err = "panic" -> "count panicked"
    [] ev.raised /\ ev.err = "" -> "count succeeded although counting a log failed"
    [] ev.fault # "" /\ ev.err # "" -> (IF ev.err = "other" THEN "counting failure without a proper status" ELSE "")
    [] ev.cond.k = "bad" -> (IF ev.err = "Invalid" THEN "" ELSE "invalid condition not refused as invalid: " \o ev.err)
    [] ev.err # "" -> "count failed: " \o ev.err
    [] ev.total # Len(all) -> "wrong total"
    [] ev.count # Len(Expected(all, ev.start, ev.desc, ev.cond)) -> "wrong count"
    [] OTHER -> ""

\* ---- the chunk catalogue partitions the log
CatalogVerdict(ev) ==
  LET c == log[ev.log]
      ch == ev.chunks
      from == [k \in 1..Len(ch) |-> 1 + Sum([j \in 1..(k - 1) |-> ch[j][3]])]
      upto == [k \in 1..Len(ch) |-> from[k] + ch[k][3] - 1]
  IN CASE ev.err # "" /\ c # <<>> -> "chunk catalogue not readable: " \o ev.err
       [] Sum([k \in 1..Len(ch) |-> ch[k][3]]) # Len(c) -> "chunk record counts do not add up"
       [] \E k \in 1..Len(ch) : ch[k][3] <= 0 -> "catalogue lists an empty chunk"
       [] \E k \in 1..Len(ch) : ch[k][1] # c[from[k]].id \/ ch[k][2] # c[upto[k]].id -> "chunk boundaries are wrong"
       [] \E k \in 1..Len(ch) : ev.sizes[k] > mc -> "chunk file larger than the maximum"
       [] \E k \in 1..Len(ch) : ev.sizes[k] >= 0 /\
              ev.sizes[k] < Hdr + Sum([j \in 1..ch[k][3] |-> c[from[k] + j - 1].len + Meta]) -> "chunk file smaller than its records"
       [] ch # <<>> /\ ev.last # 1 -> "last chunk is not the last of the list"
       [] OTHER -> ""

Verdict(ev) == CASE ev.op = "cfg" -> ""
                 [] ev.op = "append" -> AppendVerdict(ev)
                 [] ev.op = "query" -> QueryVerdict(ev)
                 [] ev.op = "count" -> CountVerdict(ev)
                 [] ev.op = "catalog" -> CatalogVerdict(ev)
                 [] ev.op = "reopen" -> "restart failed"
                 [] ev.op = "hang" -> "operation never returned"
                 [] ev.op = "endless" -> "paging does not end"
                 [] ev.op = "toomany" -> (CASE ev.err = "panic" -> "query of too many logs panicked"
                                           [] ev.n > 1000 /\ ev.err = "" -> "more logs than can be merged not refused"
                                           [] ev.n <= 1000 /\ ev.err # "" -> "query of many logs refused: " \o ev.err
                                           [] ev.n <= 1000 /\ ev.got # ev.want -> "query of many logs returned wrong records"
                                           [] OTHER -> "")
                 [] OTHER -> "unknown event"

\* the properties a failing event speaks about
Multi(ev) == Len(ev.logs) # 1
HasCond(ev) == ev.cond.k # "none"
About(ev, v) ==
  CASE ev.op = "append" ->
         (CASE v \in {"append changed earlier records", "an added record differs from what was appended", "record ids do not increase",
                      "creation time differs from the record id time"} -> {"C01"}
            [] v = "log does not hold old content plus the added records" \/ ev.aerr # "" -> {"C01", "C05"}
            [] OTHER -> {"C05"})
    [] ev.op = "query" ->
         (IF ev.fault # "" /\ ev.raised THEN {"C06"}
          ELSE IF HasCond(ev) THEN {"C03"} \cup (IF Multi(ev) THEN {"C06"} ELSE {})
          ELSE IF Multi(ev) THEN {"C06"}
          ELSE {"C02"} \cup (IF ev.start = 0 /\ ~ev.desc THEN {"C01"} ELSE {}))
    [] ev.op = "count" -> {"C04"} \cup (IF HasCond(ev) /\ ev.fault = "" /\ v \notin {"wrong total"} THEN {"C03"} ELSE {})
    [] ev.op = "catalog" -> {"C05"}
    [] ev.op = "reopen" -> {"C01"}
    [] ev.op = "endless" -> {"C02", "C06"}
    [] ev.op = "toomany" -> {"C06"} \cup (IF ev.what = "count" THEN {"C04"} ELSE {})
    [] OTHER -> {"C01", "C02", "C03", "C04", "C05", "C06"}
Mine(ev, v) == Prop = "ALL" \/ Prop \in About(ev, v)

TInit == t \in 1..Len(Traces) /\ i = 1 /\ log = <<>> /\ mc = 0 /\ cat = <<>> /\ clock = 0 /\ seqn = 0

TNext == /\ i <= Len(Traces[t])
         /\ LET v == Verdict(E) IN
            IF v = "" THEN TRUE
            ELSE IF Mine(E, v) THEN PrintT(<<"BAD", t, i, v>>) /\ FALSE
            ELSE PrintT(<<"OTHER", t, i, v>>)
         /\ i' = i + 1
         /\ t' = t
         /\ IF E.op = "cfg" THEN log' = [l \in 1..E.nlogs |-> <<>>] /\ mc' = E.maxchunk
            ELSE mc' = mc /\ log' = IF E.op = "append" THEN AfterAppend(E) ELSE log
         /\ UNCHANGED vars

TSpec == TInit /\ [][TNext]_<<tvars, vars>>
Track == IF TLCGet(t) < i THEN TLCSet(t, i) ELSE TRUE
TrackInit == \A k \in 1..Len(Traces) : TLCSet(k, 0)
ASSUME TrackInit
Report == \A k \in 1..Len(Traces) : PrintT(<<"REACHED", k, TLCGet(k), Len(Traces[k])>>)
=============================================================================

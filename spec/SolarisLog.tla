----------------------------- MODULE SolarisLog -----------------------------
(* The log store: logs made of chunks, appends that fill and roll chunks over, reads, paging, record       *)
(* conditions and counts.  Two levels: the chunk-level design (what locallog.go and chunk.go do) and the    *)
(* record-level meaning (what a caller relies on); MCLog checks the first against the second, TraceLog      *)
(* checks executions of the real server against the second.                                                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS Logs,       \* the logs
          Hdr, Meta,  \* bytes of the chunk header and of one meta record
          MaxChunk,   \* the largest chunk file
          W           \* number of record ids per time unit (design level only)

VARIABLES cat,    \* [Logs -> Seq(Seq(record))] : chunks of a log, each a sequence of records
          clock,  \* the current time in half-milliseconds; record times are even
          seqn    \* number of ids given out at the current time

vars == <<cat, clock, seqn>>

Rec(id, ms, len, tok) == [id |-> id, ms |-> ms, len |-> len, tok |-> tok]

-----------------------------------------------------------------------------
(* record-level meaning *)

Content(chunks) == FlattenSeq(chunks)

\* a condition on the creation time: a literal is in half-milliseconds
RECURSIVE Sat(_, _)
Sat(c, ms) ==
  CASE c.k = "none" -> TRUE
    [] c.k = "cmp"  -> (CASE c.c = "<"  -> ms < c.v
                          [] c.c = ">"  -> ms > c.v
                          [] c.c = "<=" -> ms <= c.v
                          [] c.c = ">=" -> ms >= c.v
                          [] c.c = "="  -> ms = c.v
                          [] c.c = "!=" -> ms # c.v)
    [] c.k = "and"  -> \A i \in 1..Len(c.a) : Sat(c.a[i], ms)
    [] c.k = "or"   -> \E i \in 1..Len(c.a) : Sat(c.a[i], ms)
    [] c.k = "not"  -> ~Sat(c.a[1], ms)

Ordered(recs, desc) == IF desc THEN Reverse(recs) ELSE recs

\* the records a complete read returns; start = 0 stands for "no start id"
Expected(recs, start, desc, cond) ==
  SelectSeq(Ordered(recs, desc),
            LAMBDA r : /\ Sat(cond, r.ms)
                       /\ \/ start = 0
                          \/ (~desc /\ r.id >= start)
                          \/ (desc /\ r.id <= start))

\* the part of the expected sequence that is still ahead of a page token
Ahead(exp, token, desc) ==
  IF token = 0 THEN <<>>
  ELSE SelectSeq(exp, LAMBDA r : IF desc THEN r.id <= token ELSE r.id >= token)

\* page of a read: a prefix within the limit, with a token that leads to exactly the rest
PageOK(exp, page, token, limit, desc) ==
  /\ Len(page) <= Len(exp) /\ Len(page) <= limit
  /\ \A i \in 1..Len(page) : page[i] = exp[i]
  /\ Len(page) = 0 => (exp = <<>> /\ token = 0)
  /\ Ahead(exp, token, desc) = SubSeq(exp, Len(page) + 1, Len(exp))

-----------------------------------------------------------------------------
(* chunk-level design *)

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Used(chunk) == Hdr + Sum([i \in 1..Len(chunk) |-> chunk[i].len + Meta])
Room(chunk) == MaxChunk - Used(chunk)

\* number of leading lengths that fit into a chunk with the given room
RECURSIVE FitN(_, _)
FitN(lens, room) == IF lens = <<>> \/ Head(lens) + Meta > room THEN 0
                    ELSE 1 + FitN(Tail(lens), room - Head(lens) - Meta)

\* the layout of the appended batch: sequence of [new |-> a chunk is created, n |-> records put there];
\* stops at the first record that does not fit into an empty chunk
RECURSIVE Layout(_, _, _)
Layout(lens, room, fresh) ==
  IF lens = <<>> THEN <<>>
  ELSE LET n == FitN(lens, room) IN
       IF n = 0 THEN (IF fresh THEN <<>> ELSE Layout(lens, MaxChunk - Hdr, TRUE))
       ELSE <<[new |-> fresh, n |-> n]>> \o Layout(SubSeq(lens, n + 1, Len(lens)), MaxChunk - Hdr, TRUE)

Fits(len) == Hdr + Meta + len <= MaxChunk
RECURSIVE Accepted(_)
Accepted(lens) == IF lens = <<>> \/ ~Fits(Head(lens)) THEN 0 ELSE 1 + Accepted(Tail(lens))

RECURSIVE Place(_, _, _)
Place(chunks, recs, lay) ==
  IF lay = <<>> THEN chunks
  ELSE LET l == Head(lay)
           part == SubSeq(recs, 1, l.n)
           cs == IF l.new THEN Append(chunks, part)
                 ELSE [chunks EXCEPT ![Len(chunks)] = @ \o part]
       IN Place(cs, SubSeq(recs, l.n + 1, Len(recs)), Tail(lay))

AppendTo(chunks, recs) ==
  LET lens == [i \in 1..Len(recs) |-> recs[i].len]
      lay  == IF chunks = <<>> THEN Layout(lens, MaxChunk - Hdr, TRUE)
              ELSE Layout(lens, Room(chunks[Len(chunks)]), FALSE)
  IN Place(chunks, recs, lay)

\* chunk selection by start id: sort.Search over Min / Max
FromChunk(chunks, start, desc) ==
  IF start = 0 THEN (IF desc THEN Len(chunks) ELSE 1)
  ELSE IF desc
       THEN Cardinality({i \in 1..Len(chunks) : chunks[i][1].id <= start})
       ELSE 1 + Cardinality({i \in 1..Len(chunks) : chunks[i][Len(chunks[i])].id < start})

\* a condition as disjoint closed intervals of times, ascending: <<[l, r]>>; the id ranges within a chunk
Ranges(tis, chunk) ==
  LET lo == chunk[1].ms
      hi == chunk[Len(chunk)].ms
      cut == [i \in 1..Len(tis) |-> [l |-> IF tis[i].l > lo THEN tis[i].l ELSE lo,
                                     r |-> IF tis[i].r < hi THEN tis[i].r ELSE hi]]
      ok == SelectSeq(cut, LAMBDA t : t.l <= t.r)
  IN [i \in 1..Len(ok) |-> [s |-> ok[i].l * W, e |-> ok[i].r * W + W - 1]]

\* considerSIDAndDesc: ranges in reading direction from the start id on
Clip(ranges, start, desc) ==
  LET rs == IF desc THEN Reverse([i \in 1..Len(ranges) |-> [s |-> ranges[i].e, e |-> ranges[i].s]]) ELSE ranges IN
  IF start = 0 THEN rs
  ELSE LET alive == SelectSeq(rs, LAMBDA r : IF desc THEN r.e <= start ELSE r.e >= start)
       IN [i \in 1..Len(alive) |->
             [alive[i] EXCEPT !.s = IF desc THEN (IF @ > start THEN start ELSE @)
                                            ELSE (IF @ < start THEN start ELSE @)]]

\* reading one chunk through its ranges
RECURSIVE ReadChunk(_, _, _, _)
ReadChunk(chunk, rs, desc, limit) ==
  IF rs = <<>> \/ limit = 0 THEN <<>>
  ELSE LET r == Head(rs)
           got == SelectSeq(Ordered(chunk, desc),
                    LAMBDA x : IF desc THEN x.id <= r.s /\ x.id >= r.e ELSE x.id >= r.s /\ x.id <= r.e)
           part == SubSeq(got, 1, IF Len(got) < limit THEN Len(got) ELSE limit)
       IN part \o ReadChunk(chunk, Tail(rs), desc, limit - Len(part))

RECURSIVE ReadFrom(_, _, _, _, _, _, _)
ReadFrom(chunks, idx, start, desc, limit, hasCond, tis) ==
  IF idx < 1 \/ idx > Len(chunks) \/ limit = 0 THEN <<>>
  ELSE LET c  == chunks[idx]
           nx == IF desc THEN idx - 1 ELSE idx + 1
           rg == IF hasCond THEN Ranges(tis, c)
                 ELSE <<[s |-> 0, e |-> W * 1000000]>>
       IN IF rg = <<>> THEN ReadFrom(chunks, nx, start, desc, limit, hasCond, tis)
          ELSE LET got == ReadChunk(c, Clip(rg, start, desc), desc, limit)
               IN got \o ReadFrom(chunks, nx, 0, desc, limit - Len(got), hasCond, tis)

QueryImpl(chunks, start, desc, limit, hasCond, tis) ==
  ReadFrom(chunks, FromChunk(chunks, start, desc), start, desc, limit, hasCond, tis)

\* the token the service returns for a page of one log
TokenImpl(page, limit, desc) ==
  IF Len(page) >= limit /\ page # <<>>
  THEN (IF desc THEN page[Len(page)].id - 1 ELSE page[Len(page)].id + 1) ELSE 0

CountImpl(chunks, start, desc, hasCond, tis) ==
  Len(QueryImpl(chunks, start, desc, 1000000, hasCond, tis))

-----------------------------------------------------------------------------
(* behaviours of the design *)
Init == cat = [l \in Logs |-> <<>>] /\ clock = 2 /\ seqn = 0

NewRecs(lens, toks) == [i \in 1..Len(lens) |-> Rec(clock * W + seqn + i, clock, lens[i], toks[i])]

AppendRecords(l, lens, toks) ==
  LET n == Accepted(lens)
      recs == SubSeq(NewRecs(lens, toks), 1, n)
  IN /\ seqn + n < W - 1
     /\ cat' = [cat EXCEPT ![l] = AppendTo(@, recs)]
     /\ seqn' = seqn + n
     /\ UNCHANGED clock

Tick == clock' = clock + 2 /\ seqn' = 0 /\ UNCHANGED cat

\* invariants of the design
ChunksWithinLimit == \A l \in Logs : \A i \in 1..Len(cat[l]) : Used(cat[l][i]) <= MaxChunk /\ cat[l][i] # <<>>
IdsAscending == \A l \in Logs : LET c == Content(cat[l]) IN
                   \A i, j \in 1..Len(c) : i < j => c[i].id < c[j].id
=============================================================================

------------------------------- MODULE MCLog -------------------------------
(* exhaustive check of the chunk-level design of the log against its record-level meaning *)
EXTENDS SolarisLog
CONSTANTS Lens, MaxRecs, MaxClock, MaxBatch

Batches == UNION {[1..n -> Lens] : n \in 1..MaxBatch}
Total == Len(Content(cat[1]))

Next == \/ \E b \in Batches : /\ Total + Len(b) <= MaxRecs
                              /\ AppendRecords(1, b, [i \in 1..Len(b) |-> Total + i])
        \/ clock < MaxClock /\ Tick

Spec == Init /\ [][Next]_vars

Ids == {0} \cup (2*W .. (MaxClock + 1) * W)
\* interval lists: none, one, or two disjoint intervals over the times
Pts == 1..(MaxClock + 1)
Tis == {<<[l |-> a, r |-> b]>> : a \in Pts, b \in Pts} \cup
       {<<[l |-> a, r |-> b], [l |-> c, r |-> d]>> : a, b, c, d \in {p \in Pts : p % 2 = 0 \/ p = 3}}
WfTis == {t \in Tis : /\ \A i \in 1..Len(t) : t[i].l <= t[i].r
                      /\ Len(t) = 2 => t[1].r < t[2].l}
CondOf(t) == [k |-> "or", a |-> [i \in 1..Len(t) |-> [k |-> "and", a |-> <<[k |-> "cmp", c |-> ">=", v |-> t[i].l],
                                                                       [k |-> "cmp", c |-> "<=", v |-> t[i].r]>>]]]
NoCond == [k |-> "none"]

AppendAcceptsPrefix ==  \* every record that fits an empty chunk is accepted, whatever the room in the last one
  \A b \in Batches :
     LET recs == NewRecs(b, [i \in 1..Len(b) |-> 99])
         n == Accepted(b)
     IN Content(AppendTo(cat[1], SubSeq(recs, 1, n))) = Content(cat[1]) \o SubSeq(recs, 1, n)

PagesOK ==
  \A desc \in BOOLEAN : \A start \in Ids : \A limit \in 1..3 :
    LET exp == Expected(Content(cat[1]), start, desc, NoCond)
        pg  == QueryImpl(cat[1], start, desc, limit, FALSE, <<>>)
    IN PageOK(exp, pg, TokenImpl(pg, limit, desc), limit, desc)

CondPagesOK ==
  \A desc \in BOOLEAN : \A t \in WfTis : \A start \in {i \in Ids : i % W \in {0, 1, 2}} : \A limit \in {1, 2, 100} :
    LET exp == Expected(Content(cat[1]), start, desc, CondOf(t))
        pg  == QueryImpl(cat[1], start, desc, limit, TRUE, t)
    IN PageOK(exp, pg, TokenImpl(pg, limit, desc), limit, desc)

CountsOK ==
  \A desc \in BOOLEAN : \A start \in Ids :
    CountImpl(cat[1], start, desc, FALSE, <<>>) = Len(Expected(Content(cat[1]), start, desc, NoCond))
=============================================================================

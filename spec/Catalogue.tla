------------------------------ MODULE Catalogue ------------------------------
(* The log catalogue: create, update and delete interleaved with a walk over the pages of a listing. The next-page *)
(* token is the ID of the first log of the next page; the walk continues at the first match not before it.         *)
EXTENDS Integers, FiniteSets
CONSTANTS IDs, Limits
VARIABLES live, gone, match, from, seen, must, twice, total
vars == <<live, gone, match, from, seen, must, twice, total>>
M(S) == {x \in S : match[x]}
First(S, n) == {x \in S : Cardinality({y \in S : y < x}) < n}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Init == live = {} /\ gone = {} /\ match = [x \in IDs |-> FALSE] /\ from = 0 /\ seen = {} /\ must = {} /\ twice = FALSE /\ total = -1
Create == \E x \in IDs \ (live \cup gone), b \in BOOLEAN :
            live' = live \cup {x} /\ match' = [match EXCEPT ![x] = b] /\ UNCHANGED <<gone, from, seen, twice, total>>
            /\ must' = IF from = 0 THEN (IF b THEN must \cup {x} ELSE must) ELSE must
Update == \E x \in live, b \in BOOLEAN : match' = [match EXCEPT ![x] = b] /\ UNCHANGED <<live, gone, from, seen, twice, total>>
            /\ must' = IF b THEN (IF from = 0 THEN must \cup {x} ELSE must) ELSE must \ {x}
Delete == \E x \in live : live' = live \ {x} /\ gone' = gone \cup {x} /\ must' = must \ {x} /\ UNCHANGED <<match, from, seen, twice, total>>
Page == /\ from >= 0
        /\ \E lim \in Limits :
             LET rest == {x \in M(live) : x >= from} p == First(rest, lim) IN
             /\ twice' = (twice \/ p \cap seen # {})
             /\ seen' = seen \cup p
             /\ from' = IF rest = p THEN -1 ELSE Min(rest \ p)
             /\ total' = Cardinality(M(live))
        /\ UNCHANGED <<live, gone, match, must>>
Next == Create \/ Update \/ Delete \/ Page
Spec == Init /\ [][Next]_vars
Once == ~twice
Complete == from = -1 => must \subseteq seen
NeverBack == live \cap gone = {}
=============================================================================

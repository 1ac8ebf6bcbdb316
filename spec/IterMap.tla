------------------------------ MODULE IterMap ------------------------------
(* The ordered map of the implementation (a linked list of nodes with reference counts; removed nodes stay linked    *)
(* while an iterator stands on them; unlinked nodes are reused) refines the abstract one: the elements in the order  *)
(* of insertion (numbers), an iterator is the number of the last element it returned.                                *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Keys, Nodes, Its, MaxAdds
VARIABLES m, it, abs, ait, bad, n
\* m: [nd: node -> [st, prev, next, ref, key, ser], head, last, free]
vars == <<m, it, abs, ait, bad, n>>
Blank == [st |-> "free", prev |-> 0, next |-> 0, ref |-> 0, key |-> 0, ser |-> 0]
Put(r, p) == IF r.nd[p].ref = 0 THEN [r EXCEPT !.nd[p] = Blank, !.free = @ \cup {p}] ELSE r   \* back to the pool
\* delete: unlink a node nobody stands on, mark it otherwise
Del(r, p) ==
  LET x == r.nd[p] IN
  IF x.st = "last" THEN r
  ELSE IF x.ref = 0 THEN
    IF x.prev # 0 THEN [r EXCEPT !.nd[x.prev].next = x.next, !.nd[x.next].prev = x.prev, !.nd[p].next = 0, !.nd[p].prev = 0]
    ELSE [r EXCEPT !.nd[x.next].prev = 0, !.nd[p].next = 0, !.head = x.next]
  ELSE [r EXCEPT !.nd[p].st = "deleted"]
\* next: the node after p an iterator moves to
RECURSIVE Move(_, _)
Move(r, p) ==
  IF r.nd[p].st = "last" THEN [r |-> r, p |-> p]
  ELSE LET r1 == [r EXCEPT !.nd[p].ref = @ - 1]
           np == r.nd[p].next
           r2 == IF r1.nd[p].st = "deleted" /\ r1.nd[p].ref <= 0 THEN Put(Del(r1, p), p) ELSE r1
           r3 == [r2 EXCEPT !.nd[np].ref = @ + 1]
       IN IF r3.nd[np].st = "deleted" THEN Move(r3, np) ELSE [r |-> r3, p |-> np]
GetV(r, p) == IF r.nd[p].st = "deleted" THEN Move(r, p) ELSE [r |-> r, p |-> p]
Find(k) == CHOOSE p \in Nodes : m.nd[p].st = "ok" /\ m.nd[p].key = k
Has(k) == \E a \in abs : a[1] = k
After(j) == {a \in abs : a[2] > ait[j]}
Least(S) == CHOOSE a \in S : \A b \in S : a[2] <= b[2]

Init == /\ m = [nd |-> [p \in Nodes |-> IF p = 1 THEN [Blank EXCEPT !.st = "last"] ELSE Blank], head |-> 1, last |-> 1, free |-> Nodes \ {1}]
        /\ it = [j \in Its |-> 0] /\ abs = {} /\ ait = [j \in Its |-> -1] /\ bad = "" /\ n = 0
Add == \E k \in Keys, q \in m.free :
         /\ ~Has(k) /\ n < MaxAdds /\ q = (CHOOSE x \in m.free : TRUE) /\ n' = n + 1
         /\ m' = [m EXCEPT !.nd[q] = [Blank EXCEPT !.st = "last", !.prev = m.last], !.nd[m.last].next = q, !.nd[m.last].st = "ok", !.nd[m.last].key = k,
                           !.nd[m.last].ser = n + 1, !.last = q, !.free = @ \ {q}]
         /\ abs' = abs \cup {<<k, n + 1>>} /\ UNCHANGED <<it, ait, bad>>
Remove == \E k \in Keys : /\ Has(k)
            /\ LET p == Find(k) IN m' = Put(Del(m, p), p)
            /\ abs' = {a \in abs : a[1] # k} /\ UNCHANGED <<it, ait, bad, n>>
Open == \E j \in Its : it[j] = 0 /\ m' = [m EXCEPT !.nd[m.head].ref = @ + 1] /\ it' = [it EXCEPT ![j] = m.head] /\ ait' = [ait EXCEPT ![j] = 0] /\ UNCHANGED <<abs, bad, n>>
HasNext == \E j \in Its : /\ it[j] # 0
             /\ LET g == GetV(m, it[j]) IN /\ m' = g.r /\ it' = [it EXCEPT ![j] = g.p]
                                            /\ bad' = IF (g.r.nd[g.p].st # "last") = (After(j) # {}) THEN bad ELSE "HasNext"
             /\ UNCHANGED <<abs, ait, n>>
NextOp == \E j \in Its : /\ it[j] # 0
             /\ LET g == GetV(m, it[j]) h == Move(g.r, g.p) IN
                /\ m' = h.r /\ it' = [it EXCEPT ![j] = h.p]
                /\ IF After(j) = {} THEN bad' = (IF g.r.nd[g.p].st = "last" THEN bad ELSE "Next at the end") /\ UNCHANGED ait
                   ELSE LET a == Least(After(j)) IN
                        bad' = (IF g.r.nd[g.p].st = "ok" /\ g.r.nd[g.p].ser = a[2] /\ g.r.nd[g.p].key = a[1] THEN bad ELSE "Next") /\ ait' = [ait EXCEPT ![j] = a[2]]
             /\ UNCHANGED <<abs, n>>
Close == \E j \in Its : /\ it[j] # 0
           /\ LET p == it[j] r1 == [m EXCEPT !.nd[p].ref = @ - 1] IN m' = (IF r1.nd[p].st = "deleted" THEN Put(Del(r1, p), p) ELSE r1)
           /\ it' = [it EXCEPT ![j] = 0] /\ ait' = [ait EXCEPT ![j] = -1] /\ UNCHANGED <<abs, bad, n>>
Next == Add \/ Remove \/ Open \/ HasNext \/ NextOp \/ Close
Spec == Init /\ [][Next]_vars

Refines == bad = ""
RECURSIVE Walk(_)
Walk(p) == IF m.nd[p].st = "last" THEN <<>> ELSE (IF m.nd[p].st = "ok" THEN <<m.nd[p].ser>> ELSE <<>>) \o Walk(m.nd[p].next)
\* the list holds exactly the elements, in order; an iterator stands on a linked node; nothing is lost
List == LET w == Walk(m.head) IN {w[j] : j \in 1..Len(w)} = {a[2] : a \in abs} /\ \A j \in 1..Len(w) - 1 : w[j] < w[j + 1]
Refs == \A p \in Nodes : m.nd[p].ref = Cardinality({j \in Its : it[j] = p})
NoLeak == (\A j \in Its : it[j] = 0) => Cardinality(m.free) = Cardinality(Nodes) - 1 - Cardinality(abs)
=============================================================================

------------------------------- MODULE Blocks -------------------------------
(* C17: the block allocator (golibs/container/bytes). A bit per block, in bytes of Bits bits, Bytes bytes in the   *)
(* header of every segment; a hint says where the first free block may be. Blocks are handed out and given back by *)
(* concurrent users; the allocator may be closed and re-opened, on a larger buffer, too.                           *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Bits, Bytes, MaxSegs, Users
VARIABLES segs, used, hint, avail, held, last
vars == <<segs, used, hint, avail, held, last>>
N == Bits * Bytes
All == 0..(segs * N - 1)
ByteOf(b) == b \div Bits
NoUser == [u \in Users |-> {}]
Held == UNION {held[u] : u \in Users}
Init == segs = 1 /\ used = {} /\ hint = 0 /\ avail = N /\ held = NoUser /\ last = "ok"
Arrange(u) ==
  LET C == {b \in All : ByteOf(b) >= hint /\ b \notin used} IN
  IF C = {} THEN hint' = segs * Bytes /\ last' = "exhausted" /\ UNCHANGED <<segs, used, avail, held>>
  ELSE LET b == CHOOSE x \in C : \A y \in C : x <= y IN
       /\ hint' = ByteOf(b) /\ used' = used \cup {b} /\ avail' = avail - 1
       /\ held' = [held EXCEPT ![u] = @ \cup {b}] /\ last' = (IF b \in Held THEN "twice" ELSE "ok") /\ UNCHANGED segs
Free(u, b) ==
  IF b \notin All THEN last' = "invalid" /\ UNCHANGED <<segs, used, hint, avail, held>>
  ELSE IF b \notin used THEN last' = "notexist" /\ UNCHANGED <<segs, used, hint, avail, held>>
  ELSE /\ used' = used \ {b} /\ avail' = avail + 1 /\ hint' = (IF hint > ByteOf(b) THEN ByteOf(b) ELSE hint)
       /\ held' = [held EXCEPT ![u] = @ \ {b}] /\ last' = "ok" /\ UNCHANGED segs
Reopen(n) == /\ n \in segs..MaxSegs /\ segs' = n /\ hint' = 0 /\ avail' = n * N - Cardinality(used) /\ last' = "ok" /\ UNCHANGED <<used, held>>
\* a user frees what it holds, or what nobody holds
Next == \E u \in Users : \/ Arrange(u) \/ \E b \in -1..(MaxSegs * N) : b \notin Held \ held[u] /\ Free(u, b)
                         \/ \E n \in 1..MaxSegs : Reopen(n)
Spec == Init /\ [][Next]_vars
Books == used = Held /\ avail = segs * N - Cardinality(used) /\ used \subseteq All
Disjoint == last # "twice" /\ \A u, v \in Users : u # v => held[u] \cap held[v] = {}
Reused == last = "exhausted" => used = All
HintOk == \A b \in All : b \notin used => ByteOf(b) >= hint
=============================================================================

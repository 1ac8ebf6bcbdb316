------------------------------ MODULE TraceBlk ------------------------------
(* C17: recorded histories of the block allocator, sequential ones and concurrent ones. "open" starts an allocator   *)
(* on a buffer, with what must be allocated in it; calls of several users overlap ("arr", "arrd" by "u").            *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i,
          n,      \* number of blocks
          used,   \* blocks that are allocated for certain
          going,  \* [user -> "", "arrange" or "free"]
          freed,  \* [user -> the block it is freeing]
          ever,   \* [user -> blocks that may have been allocated at some time since its call began]
          dirty   \* [block -> the byte it is filled with]
vars == <<n, used, going, freed, ever, dirty>>
tvars == <<t, i, vars>>
E == Traces[t][i]
Users == 1..4
All == 0..(n - 1)
Pow2 == {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048}
ValidSize(b) == b \in Pow2 \/ (b > 0 /\ b % 4096 = 0)
Arranging == {u \in Users : going[u] = "arrange"}
Freeing == {u \in Users : going[u] = "free"}
Books(e) == e.count = n /\ e.avail = n - Cardinality(used) /\ e.sound
Fits(e) == LET s == (e.bs * 8 + 1) * e.bs IN e.size >= s /\ (e.fit => e.size % s = 0)
Verdict(e) ==
  CASE e.e = "new" -> (CASE e.err = "panic" -> "opening an allocator panicked"
                         [] ~ValidSize(e.bs) -> IF e.err = "" THEN "an invalid block size is accepted" ELSE ""
                         [] OTHER -> IF (e.err = "") # Fits(e) THEN "a buffer is refused although it fits, or taken although it does not" ELSE "")
    [] e.e = "open" -> (CASE e.err # "" -> "the allocator cannot be opened again: " \o e.err
                          [] e.count # e.n -> "wrong number of blocks"
                          [] e.avail # e.n - Cardinality(used) -> "the allocator shows another set of allocated blocks after it was opened again"
                          [] OTHER -> "")
    [] e.e = "arr" -> ""
    [] e.e = "arrd" -> (CASE e.err = "panic" -> "an allocation panicked"
                          [] e.err = "Exhausted" -> IF All \subseteq used \cup ever[e.u] \/ Cardinality(All \ (used \cup ever[e.u])) < Cardinality(Arranging)
                                                    THEN "" ELSE "no block is handed out although one is free"
                          [] e.err # "" -> "an allocation failed: " \o e.err
                          [] e.idx \notin All -> "a block outside the buffer is handed out"
                          [] e.idx \in used -> "a block is handed out twice"
                          [] ~e.inside -> "a block lies outside the buffer or in the bookkeeping"
                          [] OTHER -> "")
    [] e.e = "free" -> ""
    [] e.e = "freed" -> (CASE e.err = "panic" -> "giving back a block panicked"
                           [] e.idx \notin All -> IF e.err = "" THEN "freeing a block outside the buffer is not refused" ELSE ""
                           [] e.shared -> IF e.err = "" /\ e.idx \notin used THEN "one block is freed twice" ELSE ""
                           [] ~e.own -> IF e.err = "" THEN "freeing an unallocated block is not refused" ELSE ""
                           [] e.err # "" -> "an allocated block cannot be given back: " \o e.err
                           [] OTHER -> "")
    [] e.e = "books" -> IF Books(e) THEN "" ELSE "the counts are wrong"
    [] e.e = "write" -> ""
    [] e.e = "read" -> (CASE e.err # "" -> "a block cannot be read: " \o e.err
                          [] e.idx \in DOMAIN dirty /\ e.b # dirty[e.idx] -> "a block does not keep its content"
                          [] OTHER -> "")
    [] e.e = "outside" -> IF e.err = "" THEN "a block outside the buffer can be accessed" ELSE IF e.err = "panic" THEN "access to a block panicked" ELSE ""
    [] e.e = "hang" -> "a call does not end"
    [] OTHER -> "unknown event"
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
None == [u \in Users |-> {}]
TInit == /\ t \in 1..Len(Traces) /\ i = 1 /\ n = 0 /\ used = {} /\ going = [u \in Users |-> ""] /\ freed = [u \in Users |-> -1]
         /\ ever = None /\ dirty = <<>>
TNext ==
  /\ i <= Len(Traces[t])
  /\ LET v == Verdict(E) IN IF v # "" THEN PrintT(<<"BAD", t, i, v>>) /\ FALSE ELSE TRUE
  /\ i' = i + 1 /\ UNCHANGED t
  /\ n' = IF E.e = "open" THEN E.n ELSE n
  /\ used' = (CASE E.e = "arrd" /\ E.err = "" -> used \cup {E.idx}
                [] E.e = "free" /\ E.own -> used \ {E.idx}
                [] E.e = "freed" /\ E.shared /\ E.err = "" -> used \ {E.idx}
                [] OTHER -> used)
  /\ going' = (CASE E.e = "arr" -> [going EXCEPT ![E.u] = "arrange"] [] E.e = "free" -> [going EXCEPT ![E.u] = "free"]
                 [] E.e \in {"arrd", "freed"} -> [going EXCEPT ![E.u] = ""] [] OTHER -> going)
  /\ freed' = (CASE E.e = "free" -> [freed EXCEPT ![E.u] = E.idx] [] E.e = "freed" -> [freed EXCEPT ![E.u] = -1] [] OTHER -> freed)
  \* a block that is being given back, or that another call got, may have been allocated when the call looked
  /\ ever' = (CASE E.e = "arr" -> [ever EXCEPT ![E.u] = used \cup {freed[u] : u \in Freeing}]
                [] E.e = "arrd" /\ E.err = "" -> [u \in Users |-> ever[u] \cup {E.idx}]
                [] OTHER -> ever)
  /\ dirty' = (CASE E.e = "write" -> Set(dirty, E.idx, E.b)
                 [] E.e = "free" -> Drop(dirty, E.idx)
                 [] OTHER -> dirty)
TSpec == TInit /\ [][TNext]_tvars
Track == IF TLCGet(t) < i THEN TLCSet(t, i) ELSE TRUE
ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)
Report == \A k \in 1..Len(Traces) : PrintT(<<"REACHED", k, TLCGet(k), Len(Traces[k])>>)
=============================================================================

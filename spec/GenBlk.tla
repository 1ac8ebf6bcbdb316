------------------------------- MODULE GenBlk -------------------------------
(* histories for blkh: the block allocator on buffers of all kinds *)
EXTENDS Integers, Sequences, Json, TLC, Randomization
VARIABLES h, cf
R(S) == RandomElement(S)
P(x) == R(1..100) <= x
Op(o, k, n) == [op |-> o, k |-> k, n |-> n]
Step(w) ==
  CASE w <= 34 -> Op("arrange", 0, R({1, 1, 1, 2, 3, 9}))
    [] w <= 58 -> Op("free", R(0..1000), R({1, 1, 2, 5}))          \* some of those that are allocated
    [] w <= 66 -> Op("freebad", R(0..1000), R(-2..3))   \* one that is free or outside
    [] w <= 76 -> Op("write", R(0..1000), R(1..255))
    [] w <= 80 -> Op("fill", 0, 0)                      \* until it is exhausted
    [] w <= 83 -> Op("clear", R(0..1000), R({50, 90, 100})) \* free many
    [] w <= 90 -> Op("reopen", 0, 0)
    [] w <= 94 -> Op("grow", 0, R(1..2))
    [] w <= 97 -> Op("bad", R(-1..1), R({0, -1, 3, 5, 6, 7, 100, 1000, 4095, 4097, 6000, 2049, -4096, 12, 24, 1, 2, 4, 16, 64, 1024, 2048, 4096, 8192}))
    [] OTHER -> Op("outside", R(0..1000), 0)
Cfg(z) == LET m == P(35) IN
          [mmap |-> m, bs |-> IF m THEN R({8, 16, 16}) ELSE R({1, 1, 2, 2, 4, 8}), segs |-> IF m THEN 1 ELSE R({1, 1, 2, 3}), rest |-> R({0, 0, 1, 5})]
\* concurrent users of a small allocator that is partly allocated
User(zz) == [j \in 1..R(1..4) |-> IF P(55) THEN Op("arrange", R(1..255), 1) ELSE IF P(70) THEN Op("free", R(0..5), 1) ELSE Op("read", R(0..5), 0)]
Conc(z) == [cfg |-> [mmap |-> FALSE, bs |-> R({1, 1, 2}), segs |-> R({1, 1, 2}), rest |-> 0],
            ops |-> <<Op("arrange", 0, R({0, 2, 5, 6, 7, 8, 14, 16})), Op("free", R(0..9), R({0, 1, 2}))>>,
            threads |-> IF P(80) THEN [u \in 1..R(2..3) |-> User(u)]
                        ELSE [u \in 1..2 |-> [j \in 1..2 |-> Op("freeshared", j, 1)]]]   \* both free the same blocks
Init == h = <<>> /\ cf = <<>>
Next == IF cf = <<>> THEN cf' = Cfg(0) /\ UNCHANGED h ELSE UNCHANGED cf /\ Len(h) < 40 /\ h' = Append(h, Step(R(1..100)))
Spec == Init /\ [][Next]_<<h, cf>>
Emit == Len(h) < 40 \/ (PrintT(ToJson([cfg |-> cf, ops |-> h, threads |-> <<>>])) /\ PrintT(ToJson(Conc(0))))
=============================================================================

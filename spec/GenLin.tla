------------------------------- MODULE GenLin -------------------------------
(* scenarios for linh: a few clients appending to, reading, counting and deleting logs at the same time                     *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC, Randomization
VARIABLES sc
R(S) == RandomElement(S)
P(x) == R(1..100) <= x
Size(z) == R({2, 2, 20, 300, 700, 1300, 1900, 2500, 3000})
RECURSIVE Batch(_)
Batch(n) == IF n = 0 THEN <<>> ELSE Append(Batch(n - 1), Size(n))
Op(o, k, b, d, l) == [op |-> o, k |-> k, b |-> b, desc |-> d, lim |-> l]
Step(nl, z) == LET w == R(1..100) IN
  CASE w <= 45 -> Op("append", R(1..nl), Batch(R({1, 1, 2, 3, 5})), FALSE, 0)
    [] w <= 72 -> Op("read", R(1..nl), <<>>, P(40), IF P(70) THEN 100 ELSE R(1..4))
    [] w <= 86 -> Op("count", R(1..nl), <<>>, FALSE, 0)
    [] w <= 96 -> Op("merge", 0, <<>>, P(40), 100)
    [] OTHER -> Op("del", R(1..nl), <<>>, FALSE, 0)
RECURSIVE Prog(_, _)
Prog(nl, n) == IF n = 0 THEN <<>> ELSE Append(Prog(nl, n - 1), Step(nl, n))
RECURSIVE Pre(_, _)
Pre(nl, n) == IF n = 0 THEN <<>> ELSE Append(Pre(nl, n - 1), Op("append", R(1..nl), Batch(R(1..4)), FALSE, 0))
Init == sc = <<>>
Next == /\ sc = <<>>
        /\ \E nl \in {R({1, 2, 2, 3})} :
             sc' = [logs |-> nl, cached |-> P(60), opened |-> R({1, 1, 2, 3}), locks |-> R({1, 1, 2, 3}), chunk |-> R({4096, 4096, 8192, 16384}),
                    new |-> 4096, pre |-> Pre(nl, R(0..3)), threads |-> [j \in 1..R({2, 2, 3, 4}) |-> Prog(nl, R(1..2))]]
Spec == Init /\ [][Next]_sc
Emit == sc = <<>> \/ PrintT(ToJson(sc))
=============================================================================

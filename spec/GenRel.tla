------------------------------- MODULE GenRel -------------------------------
(* scenarios for relh: the program of every thread over the operations of the pool *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC, Randomization
VARIABLES sc, n
R(S) == RandomElement(S)
P(x) == R(1..100) <= x
Op(o, k, f) == [op |-> o, k |-> k, fail |-> f]
\* one thread: gets (sometimes failing) and releases
Prog(nk, z) == LET len == R(1..4) IN
   [j \in 1..len |-> IF j = 1 \/ P(50) THEN Op("get", R(1..nk), P(25)) ELSE Op("rel", 0, FALSE)]
Ctl(nt, z) == [j \in 1..R(1..2) |-> IF P(50) THEN Op("cancel", R(1..nt), FALSE) ELSE IF P(50) THEN Op("close", 0, FALSE) ELSE Op("get", 1, FALSE)]
Scenario(z) ==
  LET nk == R(1..3)
      nt == R(2..3)
      T == [j \in 1..nt |-> Prog(nk, j)]
  IN [max |-> R({1, 1, 2, 3}), threads |-> IF P(45) THEN Append(T, Ctl(nt, z)) ELSE T]
Init == n = 0 /\ sc = <<>>
Next == n < 1 /\ n' = 1 /\ sc' = Scenario(n)
Spec == Init /\ [][Next]_<<sc, n>>
Emit == n = 0 \/ PrintT(ToJson(sc))
=============================================================================

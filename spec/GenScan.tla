------------------------------ MODULE GenScan ------------------------------
(* histories for scanh: appends, reads, chunks in use, scans with a failing or slow object store, stops in the middle of a  *)
(* scan, restarts, process deaths, damaged notes                                                                            *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC, Randomization
VARIABLES h, cfg
R(S) == RandomElement(S)
P(x) == R(1..100) <= x
Op(o, c, n, f) == [op |-> o, c |-> c, n |-> n, faults |-> f]
F(at, k, c) == [at |-> at, k |-> k, c |-> c]
Some(z) == CASE P(30) -> <<F(R(1..4), "fail", 0)>>
             [] P(15) -> <<F(R(1..4), "late", 0)>>
             [] P(20) -> <<F(R(1..3), "slow", 0)>>
             [] P(20) -> <<F(R(1..4), "cancelok", 0)>>
             [] P(20) -> <<F(R(1..4), "cancelfail", 0)>>
             [] P(25) -> <<F(R(1..3), "outage", 0)>>
             [] P(70) -> <<F(R(1..3), "hold", R(1..6)), F(R(1..3), "hold", R(1..6))>>
             [] OTHER -> <<F(1, "fail", 0), F(2, "late", 0), F(3, "fail", 0), F(5, "cancelok", 0)>>
Faults(p) == IF P(p) THEN Some(p) ELSE <<>>
Step(z) ==
  LET w == R(1..100) IN
  CASE w <= 36 -> Op("app", R(1..6), R({0, 1, 2, 5, 17, 40, 61}), <<>>)
    [] w <= 44 -> Op("read", R(1..6), 0, <<>>)
    [] w <= 52 -> Op("hold", R(1..6), 0, <<>>)
    [] w <= 60 -> Op("rel", R(1..6), 0, <<>>)
    [] w <= 68 -> Op("adv", 0, R({5, 17, 29, 51, 83}), Faults(30))
    [] w <= 88 -> Op("scan", 0, 0, Faults(45))
    [] w <= 92 -> Op("restart", 0, 0, Faults(25))
    [] w <= 97 -> Op("crash", 0, R(0..999), Faults(20))
    [] OTHER -> Op("garble", 0, R(0..2), <<>>)
Cfg(z) == LET m == R({2, 4, 5, 6, 8, 10, 14, 1000}) IN
  [n |-> R(2..6), dirs |-> R({1, 1, 2}), max |-> m, min |-> IF P(30) THEN m ELSE R(1..(IF m > 15 THEN 15 ELSE m)), thr |-> R({7, 31, 65, 119, 185}), workers |-> R(1..2)]
Steps == 36
Init == h = <<>> /\ cfg = [n |-> 0]
Next == IF cfg.n = 0 THEN cfg' = Cfg(0) /\ UNCHANGED h
        ELSE /\ Len(h) < Steps /\ UNCHANGED cfg
             /\ \E o \in {Step(Len(h))} : h' = Append(h, o)
Spec == Init /\ [][Next]_<<h, cfg>>
Emit == Len(h) < Steps \/ PrintT(ToJson([cfg |-> cfg, ops |-> h]))
=============================================================================

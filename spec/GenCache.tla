------------------------------ MODULE GenCache ------------------------------
(* scenarios for cacheh: a few threads reading, changing and deleting logs and chunk lists through the metadata cache     *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC, Randomization
VARIABLES sc
R(S) == RandomElement(S)
P(x) == R(1..100) <= x
Solo == "PROFILE" \in DOMAIN IOEnv /\ IOEnv.PROFILE = "solo"
Op(o, k, f, c) == [op |-> o, k |-> k, f |-> f, cond |-> c]
WF(z) == CASE P(20) -> "after" [] P(12) -> "before" [] OTHER -> ""     \* the storage fails after the change | without it
RF(z) == IF P(10) THEN "fail" ELSE ""
Step(nk, z) == LET w == R(1..100) IN
  CASE w <= 22 -> Op("get", R(1..nk), RF(z), FALSE)
    [] w <= 36 -> Op("chunks", R(1..nk), RF(z), FALSE)
    [] w <= 46 -> Op("last", R(1..nk), RF(z), FALSE)
    [] w <= 50 -> Op("query", R(1..nk), RF(z), FALSE)
    [] w <= 68 -> Op("upd", R(1..nk), WF(z), FALSE)
    [] w <= 90 -> Op("ups", R(1..nk), WF(z), FALSE)
    [] OTHER -> Op("del", R(0..nk), WF(z), P(50))                        \* 0: all logs
RECURSIVE Prog(_, _)
Prog(nk, n) == IF n = 0 THEN <<>> ELSE Append(Prog(nk, n - 1), Step(nk, n))
Init == sc = <<>>
Next == /\ sc = <<>>
        /\ \E nk \in {IF Solo THEN R(2..4) ELSE R({1, 1, 2})} :
             sc' = [logs |-> nk, warm |-> P(50),
                    threads |-> IF Solo THEN <<Prog(nk, 40)>> ELSE [j \in 1..R({2, 2, 3}) |-> Prog(nk, R(1..3))]]
Spec == Init /\ [][Next]_sc
Emit == sc = <<>> \/ PrintT(ToJson(sc))
=============================================================================

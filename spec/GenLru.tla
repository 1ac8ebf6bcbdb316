------------------------------- MODULE GenLru -------------------------------
(* scenarios for lruh: a few threads looking up, removing, clearing and expiring values of a cache                  *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC, Randomization
VARIABLES sc
R(S) == RandomElement(S)
P(x) == R(1..100) <= x
Solo == "PROFILE" \in DOMAIN IOEnv /\ IOEnv.PROFILE = "solo"
Op(o, k, f) == [op |-> o, k |-> k, f |-> f]
F(z) == CASE P(12) -> "fail" [] P(8) -> "old" [] OTHER -> ""     \* the load fails | loads a value that is expired already
Step(nk, z) == LET w == R(1..100) IN
  CASE w <= 65 -> Op("get", R(1..nk), F(z))
    [] w <= 82 -> Op("rem", R(1..nk), "")
    [] w <= 90 -> Op("exp", R(1..nk), "")
    [] OTHER -> Op("clear", 0, "")
RECURSIVE Prog(_, _)
Prog(nk, n) == IF n = 0 THEN <<>> ELSE Append(Prog(nk, n - 1), Step(nk, n))
Init == sc = <<>>
Next == /\ sc = <<>>
        /\ \E nk \in {IF Solo THEN R(2..7) ELSE R(1..3)} :
             sc' = [kind |-> R({"cache", "ecache", "exp"}), max |-> IF Solo THEN R(1..5) ELSE R(1..2),
                    threads |-> IF Solo THEN <<Prog(nk, 60)>> ELSE [j \in 1..R({2, 2, 3}) |-> Prog(nk, R(1..3))]]
Spec == Init /\ [][Next]_sc
Emit == sc = <<>> \/ PrintT(ToJson(sc))
=============================================================================

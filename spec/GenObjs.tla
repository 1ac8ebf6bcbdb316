------------------------------ MODULE GenObjs ------------------------------
(* scenarios for objh: calls of an object store by several threads, or (PROFILE = solo) long histories of one *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC, Randomization, IOUtils
VARIABLES sc, n
R(S) == RandomElement(S)
P(x) == R(1..100) <= x
Op(o, k, s, f) == [op |-> o, k |-> k, size |-> s, fail |-> f]
Name(nn) == R(1..nn)
Key(nn) == LET d == R({1, 1, 2, 2, 3}) IN [j \in 1..d |-> R(1..nn)]
Path(nn) == LET d == R({0, 0, 1, 1, 2}) IN [j \in 1..d |-> R(1..nn)]
Size(z) == R({0, 1, 10, 10, 700, 5000, 70000})
\* fail: after how many bytes the source fails, -1: it does not
Act(nn) == LET x == R(1..100) IN
  CASE x <= 36 -> Op("put", Key(nn), Size(nn), IF P(15) THEN R({0, 1, 10, 600, 5000}) ELSE -1)
    [] x <= 60 -> Op("get", Key(nn), 0, 0)
    [] x <= 78 -> Op("list", Path(nn), 0, 0)
    [] x <= 93 -> Op("delete", Key(nn), 0, 0)
    [] OTHER -> Op(R({"badput", "badget", "baddelete", "badlist"}), <<R(1..10)>>, 0, 0)
Puts(nn) == [j \in 1..R(0..6) |-> Op("put", Key(nn), R({1, 10}), -1)]
Scenario(z) ==
  LET nn == R(1..4) IN
  IF IOEnv.PROFILE = "solo" THEN [setup |-> <<>>, threads |-> <<[j \in 1..40 |-> Act(nn)]>>]
  ELSE [setup |-> Puts(R(1..2)), threads |-> [j \in 1..R(2..4) |-> [m \in 1..R(1..5) |-> Act(R({1, 1, 2}))]]]
Init == n = 0 /\ sc = <<>>
Next == n < 1 /\ n' = 1 /\ sc' = Scenario(n)
Spec == Init /\ [][Next]_<<sc, n>>
Emit == n = 0 \/ PrintT(ToJson(sc))
=============================================================================

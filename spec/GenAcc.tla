------------------------------- MODULE GenAcc -------------------------------
(* scenarios for acch: per thread, the accesses to chunk files it takes and gives back *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC, Randomization
VARIABLES sc, n
R(S) == RandomElement(S)
P(x) == R(1..100) <= x
Direct == IOEnv.MODE = "direct"
Op(o, c, f) == [op |-> o, c |-> c, f |-> f]
\* an access, sometimes given back right after, sometimes later or never
Acc(nc, z) == LET c == R(1..nc) IN
  IF Direct THEN R({Op("open", c, 0), Op("open", c, 0), Op("write", c, 0), Op("write", c, 0), Op("del", c, 0)})
  ELSE IF P(20) THEN R({Op("new", 9, 0), Op("new", 9, 0), Op("emp", 9, 0), Op("write", 9, 0)})
  ELSE R({Op("get", c, 0), Op("get", c, 0), Op("up", c, 0), Op("down", c, R({0, 2})), Op("sdel", c, 2), Op("write", c, 0)})
Prog(nc, z) == LET len == R(2..5) IN [j \in 1..len |-> IF j > 1 /\ P(45) THEN Op("back", 0, R(1..2)) ELSE Acc(nc, j)]
Ctl(nt, z) == [j \in 1..R(1..2) |-> IF P(60) THEN Op("cancel", R(1..nt), 0) ELSE IF P(60) THEN Op("shut", 0, 0) ELSE Acc(1, j)]
\* one thread uses the chunks in turn (they are evicted), the others remove or write one of them
User(z) == LET a == R(1..2) IN <<Op("get", a, 0), Op("back", 0, 1), Op("get", 3 - a, 0), Op("back", 0, 1), Op("get", a, 0)>>
Focus(z) == [mode |-> IOEnv.MODE, nc |-> 2, opened |-> R({1, 1, 2}), remote |-> R(BOOLEAN),
             threads |-> <<User(z), <<Op(R({"sdel", "sdel", "up"}), R(1..2), 2)>>>>
                         \o (IF P(50) THEN <<<<R({Op("down", R(1..2), 2), Op("write", R(1..2), 0), Op("shut", 0, 0), Op("sdel", R(1..2), 2)})>>>> ELSE <<>>)]
Scenario(z) == IF ~Direct /\ P(20) THEN Focus(z) ELSE
  LET nc == R({1, 1, 1, 2})
      nt == R(2..3)
      T == [j \in 1..nt |-> Prog(nc, j)]
  IN [mode |-> IOEnv.MODE, nc |-> nc, opened |-> R({1, 4, 4}), remote |-> R(BOOLEAN),
      threads |-> IF P(40) THEN Append(T, Ctl(nt, z)) ELSE T]
Init == n = 0 /\ sc = <<>>
Next == n < 1 /\ n' = 1 /\ sc' = Scenario(n)
Spec == Init /\ [][Next]_<<sc, n>>
Emit == n = 0 \/ PrintT(ToJson(sc))
=============================================================================

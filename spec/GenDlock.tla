----------------------------- MODULE GenDlock -----------------------------
(* scenarios for dlockh: lockers of several providers over one storage; threads that lock, hold, unlock and sleep; *)
(* faults of a provider's connection, its death and its shutdown                                                   *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC, Randomization
VARIABLES sc, n
R(S) == RandomElement(S)
P(x) == R(1..100) <= x
\* ctx: -1 none, 0 ended before the call, otherwise milliseconds
Ctx(z) == R({-1, -1, -1, -1, 0, 50, 900, 3000, 12000})
Hold(z) == R({0, 0, 1, 100, 100, 4000, 5000, 5000, 5001, 6000, 10000, 11000, 25000})
Op(o, l, c, d, p) == [op |-> o, l |-> l, ctx |-> c, d |-> d, p |-> p]
Lock(nl, z) == IF P(25) THEN Op("try", R(1..nl), Ctx(z), Hold(z), 0) ELSE Op("lock", R(1..nl), Ctx(z), Hold(z), 0)
Sleep(z) == Op("sleep", 0, 0, R({1, 50, 100, 3000, 5000, 9000, 10001, 14000}), 0)
\* fail: the next calls; lose: the answer of the next call; slow: the next call takes d; cut: no calls for d
Fault(np, z) == LET k == R({"fail", "fail", "fail2", "lose", "slow", "slow", "cut", "cut"}) IN
                Op(k, 0, 0, IF k = "slow" THEN R({300, 300, 12000}) ELSE IF k = "cut" THEN R({400, 15000, 21000}) ELSE 0, R(1..np))
RECURSIVE Prog(_, _)
Prog(nl, k) == IF k = 0 THEN <<>>
               ELSE (IF P(30) THEN <<Sleep(k)>> ELSE <<>>) \o <<Lock(nl, k)>> \o Prog(nl, k - 1)
\* what happens to the providers
RECURSIVE Fate(_, _)
Fate(np, k) == IF k = 0 THEN <<>>
               ELSE <<Sleep(k)>> \o (CASE P(78) -> <<Fault(np, k)>> [] P(50) -> <<Op("die", 0, 0, 0, R(1..np))>>
                                       [] OTHER -> <<Op("shutdown", 0, 0, 0, R(1..np))>>) \o Fate(np, k - 1)
Scenario(z) ==
  LET np == R(1..3)
      nn == R({1, 1, 1, 2})
      nl == R(1..4)
      nt == R(2..4)
      lk == [j \in 1..nl |-> [p |-> R(1..np), name |-> R(1..nn)]] IN
  IF P(12) THEN   \* a holder that is cut off, then one, then another, and the first comes back
     [lockers |-> <<[p |-> 1, name |-> 1], [p |-> 2, name |-> 1], [p |-> 2, name |-> 1]>>,
      threads |-> <<<<Op("lock", 1, -1, R({25000, 14000, 19000}), 0)>>, <<Op("sleep", 0, 0, 1, 0), Op("lock", 2, -1, 25000, 0)>>,
                    <<Op("sleep", 0, 0, 5000, 0), Op("lock", 3, -1, 4000, 0)>>, <<Op("sleep", 0, 0, 100, 0), Op("cut", 0, 0, R({11000, 15000}), 1)>>>>]
  ELSE [lockers |-> lk,
        threads |-> [j \in 1..nt |-> Prog(nl, R(1..3))] \o (IF P(60) THEN <<Fate(np, R(1..3))>> ELSE <<>>)]
Init == n = 0 /\ sc = <<>>
Next == n < 1 /\ n' = 1 /\ sc' = Scenario(n)
Spec == Init /\ [][Next]_<<sc, n>>
Emit == n = 0 \/ PrintT(ToJson(sc))
=============================================================================

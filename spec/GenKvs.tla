------------------------------- MODULE GenKvs -------------------------------
(* scenarios for kvsh: clients that use a key-value storage at once (PROFILE=solo: one client, a long history) *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC, Randomization
VARIABLES sc, n
R(S) == RandomElement(S)
P(x) == R(1..100) <= x
Keys == 1..4
Solo == IOEnv.PROFILE = "solo"
\* times to live in ms: 0 none, negative: expired already
Ttl(z) == IF P(55) THEN 0 ELSE R({-5, 1, 5, 20, 60, 60, 300})
Pats == {"*", "a*", "b/*", "*/d", "a", "a?", "[ab]*", "{a,b}*", "b/?", "x*", "[!a]*", "a\\*"}
Op(o, k, d, ks, pat) == [op |-> o, k |-> k, ttl |-> d, ks |-> ks, pat |-> pat, v |-> R(1..10)]
\* v: which version compare-and-set and wait use: mostly the last one seen (by anybody), sometimes an older one or none
Ks(z) == LET m == R(1..3) IN [j \in 1..m |-> R(Keys)]
DKs(z) == LET m == R(1..2) b == R(1..4) IN [j \in 1..m |-> ((b + j) % 4) + 1]
Key(z) == IF P(70) THEN 1 ELSE R(Keys)
Step(z) ==
  LET x == R(1..100) IN
  CASE x <= 16 -> Op("create", Key(z), Ttl(z), <<>>, "")
    [] x <= 28 -> Op("put", Key(z), Ttl(z), <<>>, "")
    [] x <= 50 -> Op("cas", Key(z), Ttl(z), <<>>, "")
    [] x <= 60 -> Op("get", Key(z), 0, <<>>, "")
    [] x <= 70 -> Op("delete", Key(z), 0, <<>>, "")
    [] x <= 76 -> Op("getmany", 1, 0, IF P(8) THEN <<>> ELSE Ks(z), "")
    [] x <= 82 -> Op("putmany", 1, IF P(60) THEN 0 ELSE Ttl(z), DKs(z), "")
    [] x <= 88 -> Op("list", 1, 0, <<>>, R(Pats))
    [] x <= 94 -> Op("sleep", 1, R({1, 5, 6, 25, 70, 400, 1200}), <<>>, "")
    [] OTHER -> IF Solo THEN Op("waitc", Key(z), 0, <<>>, "") ELSE Op("wait", Key(z), IF P(70) THEN 0 ELSE R({1, 5, 20, 70}), <<>>, "")
Prog(m) == [j \in 1..m |-> Step(j)]
W(z) == Op("wait", Key(z), IF P(60) THEN 0 ELSE R({1, 5, 20, 70}), <<>>, "")   \* (ttl: when its context ends)
Waiter(z) == [j \in 1..R(2..4) |-> IF P(60) THEN W(j) ELSE Step(j)]
Scenario(z) ==
  IF Solo THEN [kind |-> R({"mem", "redis"}), setup |-> <<>>, threads |-> <<[j \in 1..30 |-> Step(j)]>>, cancel |-> 0]
  ELSE LET nt == R(2..4)
           w == R({0, 1, 2, 2, 3}) IN
  [kind |-> IF P(60) THEN "mem" ELSE "redis",
   setup |-> [j \in 1..R(0..3) |-> IF P(80) THEN Op(R({"put", "put", "putmany", "create"}), Key(j), Ttl(j), DKs(j), "") ELSE Step(j)],
   threads |-> [k \in 1..nt |-> IF k <= w THEN Waiter(k) ELSE Prog(R(1..4))],
   \* a moment (ms) when the contexts of the waiters end
   cancel |-> IF P(30) THEN R({1, 10, 80}) ELSE 0]
Init == n = 0 /\ sc = <<>>
Next == n < 1 /\ n' = 1 /\ sc' = Scenario(n)
Spec == Init /\ [][Next]_<<sc, n>>
Emit == n = 0 \/ PrintT(ToJson(sc))
=============================================================================

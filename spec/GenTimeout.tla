----------------------------- MODULE GenTimeout -----------------------------
(* scenarios for timeh: threads that schedule, cancel and sleep; functions that do so, too *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC, Randomization
VARIABLES sc, n
R(S) == RandomElement(S)
P(x) == R(1..100) <= x
Delay(z) == R({0, 0, 1, 1, 1, 2, 2, 3, 5, 8, 20, 45, 31000, 70000, -3})
None == [op |-> "none", id |-> 0, d |-> 0, body |-> <<>>]
Cancel(nf) == [op |-> "cancel", id |-> R(1..nf), d |-> 0, body |-> <<>>]
Sleep(z) == [op |-> "sleep", id |-> 0, d |-> R({1, 1, 2, 3, 6, 12, 200, 30000, 60001, 60002, 60003, 60003}), body |-> <<>>]
Call(id, d, b) == [op |-> "call", id |-> id, d |-> d, body |-> b]
\* what a function does: nothing, sleep, cancel something (itself, too), schedule one more (identifiers above nf)
Body(id, nf) == IF P(55) THEN <<>> ELSE
                IF P(40) THEN <<Sleep(id)>> ELSE
                IF P(50) THEN <<Cancel(nf)>> ELSE
                <<Call(nf + id, Delay(id), IF P(30) THEN <<Sleep(id)>> ELSE <<>>)>>
Range(k, nt, nf) == {x \in 1..nf : x % nt = k - 1}
Seqs(S) == [j \in 1..Cardinality(S) |-> CHOOSE x \in S : Cardinality({y \in S : y < x}) = j - 1]
RECURSIVE Prog(_, _, _)
Prog(ids, nf, z) == IF ids = <<>> THEN (IF P(60) THEN <<Cancel(nf)>> ELSE <<>>)
    ELSE (IF P(25) THEN <<Sleep(z)>> ELSE <<>>) \o <<Call(Head(ids), Delay(z), Body(Head(ids), nf))>>
         \o (IF P(35) THEN <<Cancel(nf)>> ELSE <<>>) \o Prog(Tail(ids), nf, z)
\* many at one time
Burst(nf, d) == [j \in 1..nf |-> Call(j, d, IF P(50) THEN <<Sleep(j)>> ELSE <<>>)]
Scenario(z) ==
  LET nt == R(1..3)
      nf == R(2..7) IN
  IF P(15) THEN LET k == R(8..16) IN [n |-> 2 * k, threads |-> <<Burst(k, R({0, 2})), <<Sleep(z), Cancel(k), Cancel(k)>>>>]
  ELSE IF P(15) THEN   \* a call just when the last worker goes away
     LET S(d) == [op |-> "sleep", id |-> 0, d |-> d, body |-> <<>>] IN
     [n |-> 10, threads |-> <<<<Call(1, 1, <<>>)>>, <<S(60001), Call(2, R({0, 1}), <<>>), S(60002), Call(3, 1, <<>>)>>, <<S(60001), Call(4, R({0, 1, 2}), <<>>)>>>>]
  ELSE IF P(20) THEN   \* an earlier call while a worker goes to sleep
     [n |-> 8, threads |-> <<<<Call(1, R({20, 45, 200}), <<>>)>>, <<Call(2, R({1, 2, 5}), <<>>)>>>> \o IF P(40) THEN <<<<Call(3, R({1, 10}), <<>>), Cancel(3)>>>> ELSE <<>>]
  ELSE [n |-> 2 * nf, threads |-> [k \in 1..nt |-> Prog(Seqs(Range(k, nt, nf)), nf, k)]]
Init == n = 0 /\ sc = <<>>
Next == n < 1 /\ n' = 1 /\ sc' = Scenario(n)
Spec == Init /\ [][Next]_<<sc, n>>
Emit == n = 0 \/ PrintT(ToJson(sc))
=============================================================================

------------------------------- MODULE GenMap -------------------------------
(* histories for maph: an ordered map with several open iterators                                                  *)
EXTENDS Integers, Sequences, Json, TLC, Randomization
VARIABLES h, open, nk
R(S) == RandomElement(S)
Op(o, k, j) == [op |-> o, k |-> k, j |-> j]
Step(w, c) ==
  CASE w <= 22 -> Op("add", R(1..nk), 0)
    [] w <= 44 -> Op("rem", R(1..nk), 0)
    [] w <= 52 /\ c # {} -> Op("it", 0, R(c))
    [] w <= 62 /\ open # {} -> Op("has", 0, R(open))
    [] w <= 84 /\ open # {} -> Op("next", 0, R(open))
    [] w <= 91 /\ open # {} -> Op("close", 0, R(open))
    [] w <= 94 -> Op("get", R(1..nk), 0)
    [] w <= 97 -> Op("first", 0, 0)
    [] OTHER -> Op("clear", 0, 0)
Steps == 60
Init == h = <<>> /\ open = {} /\ nk = 0
Next == IF nk = 0 THEN nk' = R({1, 2, 3, 3, 5, 8}) /\ UNCHANGED <<h, open>>
        ELSE /\ Len(h) < Steps /\ UNCHANGED nk
             /\ \E o \in {Step(R(1..100), (1..4) \ open)} : h' = Append(h, o) /\ open' = (IF o.op = "it" THEN open \cup {o.j} ELSE IF o.op = "close" THEN open \ {o.j} ELSE open)
Spec == Init /\ [][Next]_<<h, open, nk>>
Emit == Len(h) < Steps \/ PrintT(ToJson([ops |-> h]))
=============================================================================

------------------------------- MODULE GenErr -------------------------------
(* calls for errh: the entry point, the way in, where the failure happens and the error                              *)
EXTENDS ErrTerms, Json, TLC, Randomization
VARIABLES s
R(S) == RandomElement(S)
Seqs(n) == UNION {[1..k -> Wraps] : k \in 0..n}
Fix(t) == IF Valid(t) THEN t ELSE IF Valid([t EXCEPT !.with = ""]) THEN [t EXCEPT !.with = ""] ELSE [t EXCEPT !.w = <<>>, !.with = ""]
Term(d) == Fix([b |-> R(Bases), w |-> [k \in 1..R(0..d) |-> R(Wraps)], with |-> IF R(1..4) = 1 THEN R(Joined) ELSE ""])
Sites(op) ==
  CASE op = "create" -> {"meta.create"} [] op = "update" -> {"meta.update"} [] op = "qlogs" -> {"meta.query"} [] op = "del" -> {"meta.del"}
    [] op = "append" -> {"meta.get", "log.append"} [] op = "qrec" -> {"meta.query", "log.query", "log.query", "log.query"}
    [] op = "count" -> {"meta.query", "log.count"} [] op = "lib" -> {""}
Call(op) == [op |-> op, api |-> R({"direct", "grpc", "grpc", "rest"}), ids |-> R({1, 1, 2, 3, 5}), bycond |-> R({TRUE, FALSE}), desc |-> R({TRUE, FALSE}),
             limit |-> R({1, 3, 10, 250}), recs |-> R({0, 1, 4, 120}), cap |-> R({1, 2, 100}),
             site |-> IF R(1..12) = 1 /\ op # "lib" THEN "none" ELSE R(Sites(op)), who |-> R(0..5), nth |-> R({1, 1, 1, 2, 3}),
             ctx |-> IF R(1..10) = 1 THEN R({"canceled", "deadline"}) ELSE "", t |-> Term(4), real |-> ""]
Init == s = <<>>
Next == s = <<>> /\ s' = <<Call(R({"create", "update", "qlogs", "del", "append", "append", "qrec", "qrec", "qrec", "count", "count", "lib"}))>>
Spec == Init /\ [][Next]_s
Emit == s = <<>> \/ PrintT(ToJson(s[1]))
=============================================================================

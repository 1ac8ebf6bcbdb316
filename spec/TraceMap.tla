------------------------------ MODULE TraceMap ------------------------------
(* C18: recorded histories of iterable.Map. A value is the number of the addition, so the order of the elements is    *)
(* the order of their values; an iterator is the value it returned last.                                             *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, els, its
vars == <<els, its>>
tvars == <<t, i, vars>>
E == Traces[t][i]
After(j) == {a \in els : a[2] > its[j]}
Least(S) == CHOOSE a \in S : \A b \in S : a[2] <= b[2]
Of(k) == {a \in els : a[1] = k}
Verdict(e) ==
  CASE e.err = "panic" -> "panic"
    [] e.err = "endless" -> "a call does not end"
    [] e.len # Cardinality(IF e.e = "add" /\ Of(e.k) = {} THEN els \cup {<<e.k, e.v>>} ELSE IF e.e = "rem" THEN els \ Of(e.k) ELSE IF e.e = "clear" THEN {} ELSE els) -> "the length is wrong"
    [] e.e = "add" -> IF (e.err = "") # (Of(e.k) = {}) THEN "keys are not unique or an addition failed" ELSE ""
    [] e.e = "get" -> (IF e.ok # (Of(e.k) # {}) THEN "a lookup is wrong" ELSE IF e.ok /\ <<e.k, e.v>> \notin els THEN "a lookup returned another value" ELSE "")
    [] e.e = "first" -> (IF e.ok # (els # {}) THEN "the first element is wrong" ELSE IF e.ok /\ e.k # Least(els)[1] THEN "the first element is wrong" ELSE "")
    [] e.e = "has" -> IF e.ok # (After(e.j) # {}) THEN "HasNext is wrong" ELSE ""
    [] e.e = "next" -> (CASE e.ok # (After(e.j) # {}) -> "an iterator ended too early or went on too far"
                          [] e.ok /\ <<e.k, e.v>> \notin els -> "an iterator returned an element that is not in the map"
                          [] e.ok /\ e.v <= its[e.j] -> "an iterator returned an element twice or out of order"
                          [] e.ok /\ <<e.k, e.v>> # Least(After(e.j)) -> "an iterator skipped an element"
                          [] OTHER -> "")
    [] OTHER -> ""
TInit == t \in 1..Len(Traces) /\ i = 1 /\ els = {} /\ its = [j \in 1..4 |-> 0]
TNext ==
  /\ i <= Len(Traces[t])
  /\ LET v == Verdict(E) IN IF v # "" THEN PrintT(<<"BAD", t, i, v>>) /\ FALSE ELSE TRUE
  /\ i' = i + 1 /\ UNCHANGED t
  /\ els' = (CASE E.e = "add" /\ E.err = "" -> els \cup {<<E.k, E.v>>} [] E.e = "rem" -> els \ Of(E.k) [] E.e = "clear" -> {} [] OTHER -> els)
  /\ its' = (CASE E.e = "it" -> [its EXCEPT ![E.j] = 0] [] E.e = "next" /\ E.ok -> [its EXCEPT ![E.j] = E.v] [] OTHER -> its)
TSpec == TInit /\ [][TNext]_tvars
Track == IF TLCGet(t) < i THEN TLCSet(t, i) ELSE TRUE
ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)
Report == \A k \in 1..Len(Traces) : PrintT(<<"REACHED", k, TLCGet(k), Len(Traces[k])>>)
=============================================================================

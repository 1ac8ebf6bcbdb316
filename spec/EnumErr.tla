------------------------------ MODULE EnumErr -------------------------------
(* every error up to one wrap or one joined error, at every place where a call can fail and every way in; every       *)
(* failure of the real stack                                                                                         *)
EXTENDS ErrTerms, Json, TLC
VARIABLES s
Terms == {t \in [b : Bases, w : {<<>>} \cup {<<x>> : x \in Wraps}, with : {""}] \cup [b : Bases, w : {<<>>}, with : Joined] : Valid(t)}
Places == {<<"create", "meta.create", 1>>, <<"update", "meta.update", 1>>, <<"qlogs", "meta.query", 1>>, <<"del", "meta.del", 1>>, <<"append", "meta.get", 1>>,
           <<"append", "log.append", 1>>, <<"qrec", "log.query", 1>>, <<"qrec", "meta.query", 0>>, <<"qrec", "log.query", 3>>, <<"count", "log.count", 2>>, <<"count", "meta.query", 0>>}
Call(p, a, t) == [op |-> p[1], api |-> a, ids |-> IF p[3] = 0 THEN 2 ELSE p[3], bycond |-> p[3] = 0, desc |-> FALSE, limit |-> 10, recs |-> 4, cap |-> 2,
                  site |-> p[2], who |-> 1, nth |-> 1, ctx |-> "", t |-> t, real |-> ""]
None == [b |-> "plain", w |-> <<>>, with |-> ""]
Real(k, a) == [Call(<<"", "", 1>>, a, None) EXCEPT !.real = k]
Init == s \in {Call(p, a, t) : p \in Places, a \in {"direct", "grpc", "rest"}, t \in Terms}
             \cup {Call(<<"lib", "", 1>>, "direct", t) : t \in Terms}
             \cup {Real(k, a) : k \in DOMAIN RealCode, a \in {"direct", "grpc", "rest"}} \cup {Real(k, "rest") : k \in DOMAIN RealRest}
             \cup {Real(k, a) : k \in {x \in DOMAIN RealSet : RealSet[x] \cap {"OK"} = {}}, a \in {"direct", "grpc", "rest"}}
             \cup {Real(k, "direct") : k \in DOMAIN RealSet}
Next == FALSE /\ UNCHANGED s
Spec == Init /\ [][Next]_s
Emit == PrintT(ToJson(s))
=============================================================================

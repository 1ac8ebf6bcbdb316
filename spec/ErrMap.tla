------------------------------- MODULE ErrMap -------------------------------
(* C22, the design: a call runs through the stages of its handler; a stage may fail with an error; the service turns  *)
(* the error into a status, the transport carries the code, the client decodes it; the gateway does the same and      *)
(* answers with an HTTP status. The tree of an error is its nodes in the order in which errors.Is and errors.As visit  *)
(* them.                                                                                                             *)
EXTENDS ErrTerms, TLC
CONSTANTS Depth, Multi        (* wraps per error, calls to the log storage of a merged call *)
VARIABLES entry, todo, phase, term, nodes, code, dec, http
vars == <<entry, todo, phase, term, nodes, code, dec, http>>
None == [b |-> "", w |-> <<>>, with |-> ""]
Terms == {t \in [b : Bases, w : UNION {[1..n -> Wraps] : n \in 0..Depth}, with : Joined] : Valid(t)}
Stages(e) ==
  CASE e = "create" -> <<"meta.create">> [] e = "update" -> <<"meta.update">> [] e = "qlogs" -> <<"meta.query">> [] e = "del" -> <<"meta.del">>
    [] e = "append" -> <<"meta.get", "log.append">> [] e = "qrec" -> <<"log.query">> [] e = "count" -> <<"log.count">>
    [] e = "qrecs" -> <<"meta.query">> \o [k \in 1..Multi |-> "log.query"]
    [] e = "counts" -> <<"meta.query">> \o [k \in 1..Multi |-> "log.count"]
Entries == {"create", "update", "qlogs", "del", "append", "qrec", "count", "qrecs", "counts"}
Leaf(b) == IF b = "" THEN <<>> ELSE IF b \in DOMAIN StCode THEN <<<<"status", StCode[b]>>>>
           ELSE IF b \in DOMAIN SentCode THEN <<<<"is", SentCode[b]>>>> ELSE <<<<"text", "">>>>
Statuses(ns) == {k \in 1..Len(ns) : ns[k][1] = "status"}
FirstStatus(ns) == IF Statuses(ns) = {} THEN "none" ELSE ns[CHOOSE k \in Statuses(ns) : \A m \in Statuses(ns) : k <= m][2]
(* what the service makes of an error: the status it carries, or the code of any class it belongs to, or internal     *)
Say1(ns) == IF FirstStatus(ns) \notin {"none", "Unknown"} THEN {FirstStatus(ns)}
            ELSE LET C == {ns[k][2] : k \in {m \in 1..Len(ns) : ns[m][1] = "is"}} IN IF C = {} THEN {"Internal"} ELSE C
RECURSIVE Build(_, _)
Build(ns, w) == IF w = <<>> THEN ns
  ELSE Build(CASE Head(w) = "v" -> <<<<"text", "">>>> [] Head(w) = "g" -> <<<<"status", CHOOSE c \in Say1(ns) : TRUE>>>>
               [] Head(w) \in {"m", "j"} -> <<<<"text", "">>>> \o ns \o <<<<"text", "">>>> [] OTHER -> <<<<"text", "">>>> \o ns, Tail(w))
Tree(t) == Build(Leaf(t.b), t.w) \o Leaf(t.with)
Init == entry \in Entries /\ todo = Stages(entry) /\ phase = "run" /\ term = None /\ nodes = <<>> /\ code = "" /\ dec = "" /\ http = 0
StageOk == phase = "run" /\ todo # <<>> /\ todo' = Tail(todo) /\ UNCHANGED <<entry, phase, term, nodes, code, dec, http>>
StageFail == phase = "run" /\ todo # <<>> /\ \E t \in Terms : term' = t /\ nodes' = Tree(t) /\ phase' = "failed" /\ UNCHANGED <<entry, todo, code, dec, http>>
Finish == phase = "run" /\ todo = <<>> /\ phase' = "said" /\ code' = "OK" /\ UNCHANGED <<entry, todo, term, nodes, dec, http>>
Wrap == phase = "failed" /\ \E c \in Say1(nodes) : code' = c /\ phase' = "said" /\ UNCHANGED <<entry, todo, term, nodes, dec, http>>
Client == phase = "said" /\ dec' = (IF code = "OK" THEN "" ELSE Class(code)) /\ phase' = "done" /\ UNCHANGED <<entry, todo, term, nodes, code, http>>
Gateway == phase = "said" /\ http' = (IF code = "OK" THEN 200 ELSE CASE Class(code) = "notexist" -> 404 [] Class(code) = "invalid" -> 400
             [] Class(code) \in {"exist", "conflict"} -> 409 [] OTHER -> 500) /\ phase' = "done" /\ UNCHANGED <<entry, todo, term, nodes, code, dec>>
Next == StageOk \/ StageFail \/ Finish \/ Wrap \/ Client \/ Gateway
Spec == Init /\ [][Next]_vars
(* the service, the client and the gateway agree with what the error means                                            *)
Failed == term # None
NeverSuccess == code = "OK" => ~Failed
RightCode == (code # "" /\ Failed) => code \in Codes(term)
RightClass == (dec # "" /\ Failed) => dec \in {Class(c) : c \in Codes(term)}
OnlyFailures == code \notin {"", "OK"} => Failed
RightHttp == (http # 0 /\ Failed) => \E c \in Codes(term) : HttpOK(c, http)
WrapsKeep == (Failed /\ \A k \in 1..Len(term.w) : term.w[k] \notin {"v", "g"}) => Codes(term) = Codes([term EXCEPT !.w = <<>>])
=============================================================================

-------------------------------- MODULE MCQL --------------------------------
(* the recogniser and the meaning of QL against a declarative grammar, on every token sequence up to a length     *)
EXTENDS QL, TLC
CONSTANTS N, M
VARIABLES s, mode
\* --- grammar: all sequences over the tokens of conditions
S_(x) == [k |-> "str", v |-> x]
O_(x) == [k |-> "op", v |-> x]
K_(x) == [k |-> "kw", v |-> x]
Toks == {S_(<<97>>), [k |-> "id", v |-> "tag"], O_("("), O_(")"), O_("="), O_("["), O_("]"), O_(","), K_("AND"), K_("NOT"), K_("IN")}
Sub(x, i, j) == IF i > j THEN <<>> ELSE SubSeq(x, i, j)
RECURSIVE IsExpr(_), IsAnd(_), IsX(_), IsParam(_), IsList(_, _)
IsExpr(x) == IsAnd(x) \/ \E i \in 2..(Len(x) - 1) : x[i] = K_("OR") /\ IsAnd(Sub(x, 1, i - 1)) /\ IsExpr(Sub(x, i + 1, Len(x)))
IsAnd(x) == IsX(x) \/ \E i \in 2..(Len(x) - 1) : x[i] = K_("AND") /\ IsX(Sub(x, 1, i - 1)) /\ IsAnd(Sub(x, i + 1, Len(x)))
IsX(x) == \/ IsParam(x)
          \/ \E i \in 2..(Len(x) - 1) : x[i] \in {O_("="), K_("IN")} /\ IsParam(Sub(x, 1, i - 1)) /\ IsParam(Sub(x, i + 1, Len(x)))
          \/ Len(x) > 1 /\ x[1] = K_("NOT") /\ IsX(Tail(x))
          \/ Len(x) > 2 /\ x[1] = O_("(") /\ x[Len(x)] = O_(")") /\ IsExpr(Sub(x, 2, Len(x) - 1))
IsConst(x) == Len(x) = 1 /\ x[1].k = "str"
IsList(x, c) == (x # <<>> /\ IF c THEN IsConst(x) ELSE IsParam(x))
                \/ \E i \in 2..(Len(x) - 1) : x[i] = O_(",") /\ (IF c THEN IsConst(Sub(x, 1, i - 1)) ELSE IsParam(Sub(x, 1, i - 1))) /\ IsList(Sub(x, i + 1, Len(x)), c)
IsParam(x) == \/ IsConst(x)
              \/ (Len(x) = 1 /\ x[1].k = "id")
              \/ Len(x) >= 3 /\ x[1].k = "id" /\ x[2] = O_("(") /\ x[Len(x)] = O_(")") /\ (Len(x) = 3 \/ IsList(Sub(x, 3, Len(x) - 1), FALSE))
              \/ Len(x) >= 2 /\ x[1] = O_("[") /\ x[Len(x)] = O_("]") /\ (Len(x) = 2 \/ IsList(Sub(x, 2, Len(x) - 1), TRUE))
\* --- meaning: all Boolean combinations of two atoms
Atoms == {<<"A">>, <<"B">>}
BT == {"A", "B", "AND", "OR", "NOT", "(", ")"}
Atom(c, v) == <<[k |-> "id", v |-> "tag"], O_("("), S_(c), O_(")"), O_(v), S_(<<49>>)>>
Expand(b) == LET RECURSIVE F(_)
                 F(i) == IF i > Len(b) THEN <<>> ELSE
                         (CASE b[i] = "A" -> Atom(<<97>>, "=") [] b[i] = "B" -> Atom(<<98>>, "!=")
                            [] b[i] \in {"(", ")"} -> <<O_(b[i])>> [] OTHER -> <<K_(b[i])>>) \o F(i + 1)
             IN F(1)
\* value of a combination: "" if it is not one
RECURSIVE MOr(_, _, _), MAnd(_, _, _), MX(_, _, _)
And2(x, y) == IF x = "" \/ y = "" THEN "" ELSE IF x = "T" /\ y = "T" THEN "T" ELSE "F"
Or2(x, y) == IF x = "" \/ y = "" THEN "" ELSE IF x = "F" /\ y = "F" THEN "F" ELSE "T"
Not1(x) == IF x = "" THEN "" ELSE IF x = "T" THEN "F" ELSE "T"
Pick(V) == IF V \ {""} = {} THEN "" ELSE CHOOSE v \in V \ {""} : TRUE
MOr(x, a, b) == Pick({MAnd(x, a, b)} \cup {IF x[i] = "OR" THEN Or2(MAnd(Sub(x, 1, i - 1), a, b), MOr(Sub(x, i + 1, Len(x)), a, b)) ELSE "" : i \in 2..(Len(x) - 1)})
MAnd(x, a, b) == Pick({MX(x, a, b)} \cup {IF x[i] = "AND" THEN And2(MX(Sub(x, 1, i - 1), a, b), MAnd(Sub(x, i + 1, Len(x)), a, b)) ELSE "" : i \in 2..(Len(x) - 1)})
MX(x, a, b) == CASE x = <<"A">> -> a [] x = <<"B">> -> b
                 [] Len(x) > 1 /\ x[1] = "NOT" -> Not1(MX(Tail(x), a, b))
                 [] Len(x) > 2 /\ x[1] = "(" /\ x[Len(x)] = ")" -> MOr(Sub(x, 2, Len(x) - 1), a, b)
                 [] OTHER -> ""
Logs == {[id |-> <<1>>, tags |-> T] : T \in SUBSET {<<(<<97>>), <<49>>>>, <<(<<98>>), <<49>>>>}}
B_(x) == IF x THEN "T" ELSE "F"

Init == s = <<>> /\ mode \in {"grammar", "meaning"}
Next == UNCHANGED mode /\ IF mode = "grammar" THEN Len(s) < N /\ \E x \in Toks : s' = Append(s, x) ELSE Len(s) < M /\ \E x \in BT : s' = Append(s, x)
Spec == Init /\ [][Next]_<<s, mode>>
Grammar == mode = "grammar" /\ s # <<>> => (Parse(s) # None <=> IsExpr(s))
Meaning == mode = "meaning" /\ s # <<>> =>
             \A g \in Logs : LET a == Parse(Expand(s))
                                 m == MOr(s, B_(<<(<<97>>), <<49>>>> \in g.tags), B_(<<(<<98>>), <<49>>>> \notin g.tags))
                             IN IF a = None THEN m = "" ELSE Check(a) \in {"ok", "doubt"} /\ m = B_(Sat(a, g))
=============================================================================

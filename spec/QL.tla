--------------------------------- MODULE QL ---------------------------------
(* The expression language for logs (docs/expressions.md): grammar over tokens, the rules for operators and      *)
(* functions, and the meaning of an expression for a log. Texts are sequences of code points.                    *)
(*   token: [k |-> "str", v |-> text] | [k |-> "num" | "id" | "kw" | "op" | "junk", v |-> string]                *)
(*   log:   [id |-> text, tags |-> set of <<name, value>>]                                                       *)
EXTENDS Integers, Sequences, FiniteSets

Is(s, i, k, v) == i <= Len(s) /\ s[i].k = k /\ s[i].v = v
Kind(s, i) == IF i <= Len(s) THEN s[i].k ELSE "end"
Cmp == {"<", ">", "<=", ">=", "=", "!="}
None == [t |-> "none"]
Fail == [n |-> 0, a |-> None]
Ok(n, a) == [n |-> n, a |-> a]

RECURSIVE POr(_, _), POrTail(_, _, _), PAnd(_, _), PAndTail(_, _, _), PX(_, _), PParam(_, _), PArgs(_, _, _), PConsts(_, _, _)
Group(t, acc) == IF Len(acc) = 1 THEN acc[1] ELSE [t |-> t, xs |-> acc]
POr(s, i) == LET x == PAnd(s, i) IN IF x.n = 0 THEN Fail ELSE POrTail(s, x.n, <<x.a>>)
POrTail(s, i, acc) == IF Is(s, i, "kw", "OR") THEN LET x == PAnd(s, i + 1) IN IF x.n = 0 THEN Fail ELSE POrTail(s, x.n, Append(acc, x.a))
                      ELSE Ok(i, Group("or", acc))
PAnd(s, i) == LET x == PX(s, i) IN IF x.n = 0 THEN Fail ELSE PAndTail(s, x.n, <<x.a>>)
PAndTail(s, i, acc) == IF Is(s, i, "kw", "AND") THEN LET x == PX(s, i + 1) IN IF x.n = 0 THEN Fail ELSE PAndTail(s, x.n, Append(acc, x.a))
                       ELSE Ok(i, Group("and", acc))
PCond(s, i) == LET p == PParam(s, i)
                   o == IF p.n # 0 /\ Kind(s, p.n) = "op" /\ s[p.n].v \in Cmp THEN s[p.n].v
                        ELSE IF p.n # 0 /\ (Is(s, p.n, "kw", "IN") \/ Is(s, p.n, "kw", "LIKE")) THEN s[p.n].v ELSE ""
                   q == PParam(s, p.n + 1)
               IN IF p.n = 0 THEN Fail
                  ELSE IF o = "" THEN Ok(p.n, [t |-> "cond", p |-> p.a, op |-> "", q |-> None])
                  ELSE IF q.n = 0 THEN Fail ELSE Ok(q.n, [t |-> "cond", p |-> p.a, op |-> o, q |-> q.a])
PX(s, i) ==
  IF Is(s, i, "kw", "NOT") THEN LET x == PX(s, i + 1) IN IF x.n = 0 THEN Fail ELSE Ok(x.n, [t |-> "not", x |-> x.a, twice |-> Is(s, i + 1, "kw", "NOT")])
  ELSE IF Is(s, i, "op", "(") THEN LET x == POr(s, i + 1) IN IF x.n = 0 \/ ~Is(s, x.n, "op", ")") THEN Fail ELSE Ok(x.n + 1, x.a)
  ELSE PCond(s, i)
PParam(s, i) ==
  CASE Kind(s, i) \in {"str", "num"} -> Ok(i + 1, [t |-> s[i].k, v |-> s[i].v])
    [] Kind(s, i) = "id" /\ Is(s, i + 1, "op", "(") ->
         LET x == IF Is(s, i + 2, "op", ")") THEN Ok(i + 2, <<>>) ELSE PArgs(s, i + 2, <<>>) IN
         IF x.n = 0 \/ ~Is(s, x.n, "op", ")") THEN Fail ELSE Ok(x.n + 1, [t |-> "fn", n |-> s[i].v, args |-> x.a])
    [] Kind(s, i) = "id" -> Ok(i + 1, [t |-> "id", n |-> s[i].v])
    [] Is(s, i, "op", "[") ->
         LET x == IF Is(s, i + 1, "op", "]") THEN Ok(i + 1, <<>>) ELSE PConsts(s, i + 1, <<>>) IN
         IF x.n = 0 \/ ~Is(s, x.n, "op", "]") THEN Fail ELSE Ok(x.n + 1, [t |-> "arr", xs |-> x.a])
    [] OTHER -> Fail
PArgs(s, i, acc) == LET x == PParam(s, i) IN
  IF x.n = 0 THEN Fail ELSE IF Is(s, x.n, "op", ",") THEN PArgs(s, x.n + 1, Append(acc, x.a)) ELSE Ok(x.n, Append(acc, x.a))
PConsts(s, i, acc) ==
  IF Kind(s, i) \notin {"str", "num"} THEN Fail
  ELSE LET c == Append(acc, [t |-> s[i].k, v |-> s[i].v]) IN IF Is(s, i + 1, "op", ",") THEN PConsts(s, i + 2, c) ELSE Ok(i + 1, c)
\* the tree of an expression, None if the text is not one; no text at all selects everything
Parse(s) == IF s = <<>> THEN [t |-> "true"] ELSE LET x == POr(s, 1) IN IF x.n = Len(s) + 1 THEN x.a ELSE None

(* "ok": means something; "bad": must be refused; "doubt": the documentation and the implementation leave it open *)
Worst(S) == IF "bad" \in S THEN "bad" ELSE IF "doubt" \in S THEN "doubt" ELSE "ok"
Tag(p) == IF p.t # "fn" \/ p.n # "tag" \/ Len(p.args) # 1 THEN "bad" ELSE IF p.args[1].t = "str" THEN "ok" ELSE "doubt"
Left(p) == CASE p.t = "str" -> "doubt" [] p.t = "id" /\ p.n = "logID" -> "ok" [] p.t = "fn" -> Tag(p) [] OTHER -> "bad"
Right(p) == CASE p.t = "str" -> "ok" [] p.t = "num" -> "doubt" [] p.t = "id" /\ p.n = "logID" -> "doubt" [] p.t = "fn" -> Tag(p) [] OTHER -> "bad"
Arr(p) == IF p.t # "arr" THEN "bad" ELSE IF \E j \in 1..Len(p.xs) : p.xs[j].t = "num" THEN "doubt" ELSE "ok"
RECURSIVE Check(_)
Check(a) ==
  CASE a.t = "none" -> "bad"
    [] a.t = "true" -> "ok"
    [] a.t = "not" -> Worst({Check(a.x), IF a.twice THEN "doubt" ELSE "ok"})
    [] a.t \in {"or", "and"} -> Worst({Check(a.xs[j]) : j \in 1..Len(a.xs)})
    [] a.op = "" -> "bad"
    [] a.op \in Cmp -> Worst({Left(a.p), Right(a.q)})
    [] a.op = "IN" -> Worst({Left(a.p), Arr(a.q)})
    [] a.op = "LIKE" -> Worst({Left(a.p), IF a.q.t = "str" THEN "ok" ELSE "bad"})

RECURSIVE Less(_, _, _), Like(_, _, _, _)
Less(x, y, j) == j <= Len(y) /\ (j > Len(x) \/ x[j] < y[j] \/ (x[j] = y[j] /\ Less(x, y, j + 1)))
Like(x, y, i, j) ==    \* % (37) stands for any text
  IF j > Len(y) THEN i > Len(x)
  ELSE IF y[j] = 37 THEN Like(x, y, i, j + 1) \/ (i <= Len(x) /\ Like(x, y, i + 1, j))
  ELSE i <= Len(x) /\ x[i] = y[j] /\ Like(x, y, i + 1, j + 1)
TagOf(g, n) == LET S == {p \in g.tags : p[1] = n} IN IF S = {} THEN <<>> ELSE (CHOOSE p \in S : TRUE)[2]
Val(p, g) == IF p.t = "str" THEN p.v ELSE IF p.t = "id" THEN g.id ELSE TagOf(g, p.args[1].v)
RECURSIVE Sat(_, _)
Sat(a, g) ==
  CASE a.t = "true" -> TRUE
    [] a.t = "not" -> ~Sat(a.x, g)
    [] a.t = "or" -> \E j \in 1..Len(a.xs) : Sat(a.xs[j], g)
    [] a.t = "and" -> \A j \in 1..Len(a.xs) : Sat(a.xs[j], g)
    [] a.op = "IN" -> \E j \in 1..Len(a.q.xs) : a.q.xs[j].v = Val(a.p, g)
    [] a.op = "LIKE" -> Like(Val(a.p, g), a.q.v, 1, 1)
    [] OTHER -> LET x == Val(a.p, g) y == Val(a.q, g) IN
                CASE a.op = "=" -> x = y [] a.op = "!=" -> x # y [] a.op = "<" -> Less(x, y, 1) [] a.op = ">" -> Less(y, x, 1)
                  [] a.op = "<=" -> ~Less(y, x, 1) [] a.op = ">=" -> ~Less(x, y, 1)
=============================================================================

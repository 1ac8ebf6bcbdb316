------------------------------- MODULE GenCat -------------------------------
(* histories for cath: the log catalogue with random expressions (also mutated to invalid ones), page walks that   *)
(* are continued between changes, deletions by condition and by ID, records, restarts.                              *)
(* In texts a code point -n stands for the ID of the n-th log, -1000-n for the beginning of it.                     *)
EXTENDS QL, Json, IOUtils, TLC, Randomization
VARIABLES h, cfg
R(S) == RandomElement(S)
P(x) == R(1..100) <= x
Keys == {<<97>>, <<98>>, <<97, 98>>, <<99, 32, 100>>, <<233>>, <<97, 39, 34>>, <<65>>, <<>>}
Vals == {<<>>, <<97>>, <<97, 98>>, <<98>>, <<65>>, <<97, 32, 98>>, <<233>>, <<8364, 97>>, <<97, 37, 98>>, <<97, 39>>, <<97, 34, 98>>, <<97, 39, 34>>,
         <<97, 92>>, <<92, 92>>, <<65, 78, 68>>, <<60>>, <<49, 48>>, <<57>>, <<32>>, <<37>>, <<97, 97, 98, 97>>, <<128512>>, <<61>>, <<41>>, <<9>>, <<60, 38, 62>>}
Key(z) == IF P(75) THEN R({<<97>>, <<98>>}) ELSE R(Keys)
V1(z) == IF P(60) THEN R({<<97>>, <<97, 98>>, <<98>>, <<>>, <<97, 97, 98, 97>>}) ELSE R(Vals)
Pat(z) == IF P(40) THEN R({<<97, 37>>, <<37, 98>>, <<37, 97, 37>>, <<97, 37, 98>>, <<37>>, <<>>, <<37, 37>>, <<97, 37, 97>>, <<37, 97, 98, 37, 97>>})
          ELSE LET v == V1(z) k == R(0..Len(v)) IN SubSeq(v, 1, k) \o R({<<37>>, <<>>}) \o SubSeq(v, k + R({1, 2}), Len(v))
Str(v) == [k |-> "str", v |-> v]
Kw(v) == [k |-> "kw", v |-> v]
Op(v) == [k |-> "op", v |-> v]
Id(v) == [k |-> "id", v |-> v]
IdText(z) == LET n == R(1..8) IN IF P(70) THEN <<-n>> ELSE IF P(50) THEN <<-1000 - n>> ELSE V1(z)
IdPat(z) == LET n == R(1..8) IN R({<<-n>>, <<-1000 - n, 37>>, <<37>>, <<37, -n>>, <<37, 48, 37>>, <<-1000 - n>>})
TagF(v) == <<Id("tag"), Op("("), Str(v), Op(")")>>
RECURSIVE List(_, _)
List(n, onid) == LET v == Str(IF onid THEN IdText(n) ELSE V1(n)) IN IF n <= 1 THEN <<v>> ELSE <<v, Op(",")>> \o List(n - 1, onid)
Cond(z) ==
  LET onid == P(22)  n == R(0..4)  w == R(1..100) c == R(Cmp)
      left == IF onid THEN <<Id("logID")>> ELSE TagF(Key(z)) IN
  CASE w <= 50 -> left \o <<Op(c), Str(IF onid THEN IdText(z) ELSE V1(z))>>
    [] w <= 60 -> left \o <<Op(c)>> \o TagF(Key(z))
    [] w <= 78 -> left \o <<Kw("IN"), Op("[")>> \o (IF n = 0 THEN <<>> ELSE List(n, onid)) \o <<Op("]")>>
    [] OTHER -> left \o <<Kw("LIKE"), Str(IF onid THEN IdPat(z) ELSE Pat(z))>>
RECURSIVE Expr(_, _)
Par(x) == <<Op("(")>> \o x \o <<Op(")")>>
Expr(d, z) == LET w == R(1..100) IN
  IF d = 0 \/ w <= 30 THEN Cond(z)
  ELSE CASE w <= 50 -> Expr(d - 1, z) \o <<Kw("AND")>> \o Expr(d - 1, z + 1)
         [] w <= 70 -> Expr(d - 1, z) \o <<Kw("OR")>> \o Expr(d - 1, z + 1)
         [] w <= 80 -> <<Kw("NOT")>> \o Cond(z)
         [] w <= 88 -> <<Kw("NOT")>> \o Par(Expr(d - 1, z))
         [] OTHER -> Par(Expr(d - 1, z))
Odds == <<Str(<<97>>), Kw("AND"), Kw("OR"), Kw("NOT"), Kw("IN"), Kw("LIKE"), Op("("), Op(")"), Op("["), Op("]"), Op(","), Op("="), Op("<"), Id("logID"), Id("tag"),
             Id("ctime"), Id("Tag"), Id("_x"), Id("ANDY"), [k |-> "num", v |-> "1"], [k |-> "num", v |-> "-1.5e3"],
             [k |-> "junk", v |-> ";"], [k |-> "junk", v |-> "!"], [k |-> "junk", v |-> "'a"], [k |-> "junk", v |-> "\""], [k |-> "junk", v |-> "~"], [k |-> "junk", v |-> "\\"]>>
Odd(z) == Odds[R(1..Len(Odds))]
Mutate(s) ==
  LET i == R(1..Len(s)) j == R(1..Len(s)) w == R(1..5) IN
  CASE w = 1 -> SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
    [] w = 2 -> SubSeq(s, 1, i) \o SubSeq(s, i, Len(s))
    [] w = 3 -> [s EXCEPT ![i] = s[j], ![j] = s[i]]
    [] w = 4 -> [s EXCEPT ![i] = Odd(i)]
    [] OTHER -> SubSeq(s, 1, i) \o <<Odd(i)>> \o SubSeq(s, i + 1, Len(s))
\* operators and functions used wrongly
Num(z) == [k |-> "num", v |-> R({"1", "-2", "0.5"})]
Fn(n, a) == <<Id(n), Op("(")>> \o a \o <<Op(")")>>
Any1(z) == LET w == R(1..11) v == Str(V1(z)) k == Str(Key(z)) IN
  CASE w = 1 -> <<v>> [] w = 2 -> <<Num(z)>> [] w = 3 -> <<Id("logID")>> [] w = 4 -> TagF(Key(z)) [] w = 5 -> <<Op("["), v, Op("]")>>
    [] w = 6 -> Fn("tag", <<k, Op(","), v>>) [] w = 7 -> Fn("tag", <<>>) [] w = 8 -> Fn("tag", R({<<Num(z)>>})) [] w = 9 -> Fn("logID", R({<<>>, <<k>>}))
    [] w = 10 -> <<Id(R({"ctime", "tag", "logid", "tags"}))>> [] OTHER -> Fn(R({"ctime", "Tag", "count"}), <<k>>)
Misuse(z) == LET o == R(1..12) l == IF P(60) THEN TagF(Key(z)) ELSE Any1(z) IN
  IF P(10) THEN l ELSE l \o <<IF o <= 3 THEN Kw("LIKE") ELSE IF o <= 6 THEN Kw("IN") ELSE Op(R(Cmp))>> \o Any1(z + 1)
RECURSIVE Chain(_, _)
Chain(n, k) == IF n <= 1 THEN Cond(n) ELSE Cond(n) \o <<Kw(k)>> \o Chain(n - 1, k)
Text(z) == CASE P(4) -> <<>> [] P(4) -> Chain(R({20, 60}), R({"AND", "OR"})) [] P(20) -> (IF P(50) THEN Misuse(z) ELSE IF P(50) THEN Cond(z) \o <<Kw(R({"AND", "OR"}))>> \o Misuse(z) ELSE Misuse(z) \o <<Kw(R({"AND", "OR"}))>> \o Cond(z)) [] P(25) -> Mutate(IF P(30) THEN Mutate(Expr(2, z)) ELSE Expr(R(0..2), z)) [] OTHER -> Expr(R(0..3), z)
\* narrow: a deletion does not empty the catalogue at once
DelText(z) == LET t == IF P(70) THEN Cond(z) \o <<Kw("AND")>> \o Cond(z + 1) ELSE Text(z) IN IF Check(Parse(t)) = "doubt" THEN Cond(z) ELSE t
RECURSIVE Tags(_)
Tags(n) == IF n = 0 THEN <<>> ELSE <<[k |-> Key(n), v |-> V1(n)]>> \o Tags(n - 1)
RECURSIVE Logs(_)
Logs(n) == IF n = 0 THEN <<>> ELSE <<R(0..12)>> \o Logs(n - 1)
Rec(o) == [op |-> o, l |-> R(1..10), ls |-> <<>>, tags |-> <<>>, toks |-> <<>>, lim |-> 0, w |-> 0, n |-> 0, mark |-> FALSE, gone |-> FALSE]
Lim(z) == IF P(70) THEN R(1..3) ELSE R({5, 0, -1, 1000, 2000})
\* over REST: malformed requests
Way == IF "WAY" \in DOMAIN IOEnv THEN IOEnv.WAY ELSE ""
Odds2 == 14
Step(z) ==
  LET w == R(1..100) IN
  CASE Way = "rest" /\ P(6) -> [Rec("odd") EXCEPT !.n = R(1..Odds2), !.tags = Tags(1), !.toks = DelText(z)]
    [] w <= 18 -> [Rec("create") EXCEPT !.tags = Tags(R({0, 1, 1, 2, 2, 3}))]
    [] w <= 30 -> [Rec("update") EXCEPT !.tags = Tags(R(0..3)), !.l = IF P(5) THEN 0 ELSE @]
    [] w <= 37 -> [Rec("get") EXCEPT !.l = IF P(10) THEN 0 ELSE @]
    [] w <= 52 -> [Rec("list") EXCEPT !.toks = Text(z), !.lim = Lim(z), !.w = R(1..3)]
    [] w <= 70 -> [Rec("page") EXCEPT !.lim = Lim(z), !.w = R(1..3)]
    [] w <= 77 -> [Rec("del") EXCEPT !.toks = DelText(z)]
    [] w <= 80 -> [Rec("sdel") EXCEPT !.ls = Logs(R(1..3)), !.mark = P(70)]
    [] w <= 81 -> [Rec("sdelc") EXCEPT !.toks = DelText(z), !.mark = P(50)]
    [] w <= 85 -> [Rec("slist") EXCEPT !.ls = Logs(R(1..6)), !.lim = Lim(z), !.w = R(1..3), !.gone = P(40)]
    [] w <= 89 -> Rec("app")
    [] w <= 94 -> [Rec("read") EXCEPT !.toks = Text(z)]
    [] w <= 96 -> [Rec("readid") EXCEPT !.ls = Logs(R(1..3))]
    [] w <= 97 -> [Rec("deep") EXCEPT !.toks = Cond(z), !.n = R({10, 100, 1500, 100000})]
    [] w <= 98 -> [Rec("text") EXCEPT !.n = R(1..60)]
    [] OTHER -> Rec("reopen")
Steps == 45
Init == h = <<>> /\ cfg = [cached |-> FALSE, steps |-> 0]
Setup == cfg.steps = 0 /\ cfg' = [cached |-> R(BOOLEAN), steps |-> Steps] /\ UNCHANGED h
Next == Setup \/ (cfg.steps > 0 /\ Len(h) < Steps /\ UNCHANGED cfg
                  /\ h' = Append(h, IF Len(h) < 4 THEN [Rec("create") EXCEPT !.tags = Tags(R(1..3))] ELSE Step(Len(h))))
Spec == Init /\ [][Next]_<<h, cfg>>
Emit == Len(h) < Steps \/ PrintT(ToJson([cfg |-> cfg, ops |-> h]))
=============================================================================

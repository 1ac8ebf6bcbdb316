------------------------------- MODULE GenConf -------------------------------
(* configurations for confh: a file in one of the formats, environment variables with names in any case, variables that mean        *)
(* nothing here, and sometimes something that has to be refused                                                                     *)
EXTENDS Config, Json, IOUtils, Randomization
VARIABLES h
R(S) == RandomElement(S)
P(x) == R(1..100) <= x
Texts == {<<97>>, <<115, 101, 99, 114, 101, 116>>, <<97, 95, 98>>, <<97, 61, 98>>, <<53, 52, 51, 50>>, <<116, 114, 117, 101>>, <<110, 117, 108, 108>>, <<48>>, <<32, 97>>, <<97, 32>>, <<32>>,
          <<123, 125>>, <<91, 49, 93>>, <<97, 92, 110>>, <<92>>, <<97, 34, 98>>, <<34>>, <<39, 97, 39>>, <<233, 8364>>, <<128512>>, <<9>>, <<97, 10, 98>>, <<1>>, <<127>>, <<8203, 97>>, <<917505>>,
          <<45, 49>>, <<49, 46, 53>>, <<126>>, <<35, 97>>, <<58, 97>>, <<97, 58, 32, 98>>, <<38>>, <<60>>, <<97, 44, 98>>, <<37, 115>>, <<36, 97>>, <<95>>, <<47, 118, 97, 114>>, <<65, 66>>, <<97, 10>>, <<10, 97>>, <<9, 97, 9>>, <<65533>>}
Ints == {1, 2, 7, 64, 80, 8080, 65535, 100000, 2147483647, -1}
Val(o) == IF Kinds[o] = "str" THEN R(Texts) ELSE <<R(Ints)>>
FVal(o) == IF P(15) THEN (IF Kinds[o] = "str" THEN <<>> ELSE <<0>>) ELSE Val(o)
EVal(o) == IF P(15) /\ Kinds[o] # "str" THEN <<0>> ELSE Val(o)
Pick(z) == LET p == R({0, 10, 30, 60, 100}) IN {o \in 1..N : P(p)}
Asc(S) == LET RECURSIVE G(_) G(o) == IF o > N THEN <<>> ELSE (IF o \in S THEN <<o>> ELSE <<>>) \o G(o + 1) IN G(1)
FileOpts(S) == LET q == Asc(S) IN [j \in 1..Len(q) |-> [o |-> q[j], v |-> FVal(q[j]), style |-> R(1..4)]]
\* form: how the value is written: 1 plain, 2 as a JSON text, 3 with spaces around (for numbers)
EnvOpts(S) == LET q == Asc(S) IN [j \in 1..Len(q) |-> [o |-> q[j], v |-> EVal(q[j]), form |-> R(1..3), style |-> R(1..4)]]
File(z) == LET k == R(1..100) IN
  CASE k <= 20 -> [kind |-> "none", opts |-> <<>>, nulls |-> <<>>]
    [] k <= 80 -> LET n == IF P(10) THEN {R(0..2)} \ {0} ELSE {} IN
                  [kind |-> R({"yaml", "json", "YAML", "JSON"}), opts |-> FileOpts({o \in Pick(z) : Group(o) \notin n}), nulls |-> Asc(n)]
    [] OTHER -> [kind |-> R({"yaml", "json"}), opts |-> FileOpts(Pick(z)), nulls |-> <<>>]
Bad(z) == IF P(85) THEN "" ELSE R({"missing", "ext", "syntax", "type", "envtext", "envfloat", "envlist", "envhuge"})
Conf(z) ==
  LET w == IF P(12) THEN R(1..2) ELSE 0        \* a whole group in one variable
      b == Bad(z)
  IN [file |-> File(z), env |-> EnvOpts({o \in Pick(z) : w = 0 \/ Group(o) # w}), whole |-> EnvOpts({o \in 1..N : w # 0 /\ Group(o) = w}),
      empty |-> Asc({o \in 1..N : P(5)}), noise |-> R(0..31), bad |-> b, n |-> R({3, 4, 6, 14, 15, 16})]
Steps == 6
Init == h = <<>>
Next == Len(h) < Steps /\ h' = Append(h, Conf(Len(h)))
Spec == Init /\ [][Next]_h
Emit == Len(h) < Steps \/ PrintT(ToJson([confs |-> h]))
=============================================================================

------------------------------ MODULE TraceConf ------------------------------
(* C25: configurations recorded by confh *)
EXTENDS Config, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i
E == Traces[t][i]
Fn(s) == [o \in {s[j].o : j \in 1..Len(s)} |-> (CHOOSE j \in 1..Len(s) : s[j].o = o)]
Map(s) == LET f == Fn(s) IN [o \in DOMAIN f |-> s[f[o]].v]
Refused == {"missing", "ext", "syntax", "type", "envtext", "envfloat", "envlist", "envhuge"}
Verdict(e) ==
  IF e.bad \in Refused THEN
    (CASE e.err = "" -> "a configuration is used that has to be refused: " \o e.bad
       [] e.bad = "missing" /\ e.err # "NotExist" -> "a missing file is not reported as such but: " \o e.err
       [] e.bad = "ext" /\ e.err # "Invalid" -> "a file of an unknown kind is not reported as invalid but: " \o e.err
       [] e.bad \in {"syntax", "type"} /\ e.err = "panic" -> "panic"
       [] OTHER -> "")
  ELSE IF e.err # "" THEN "a configuration is refused: " \o e.err
  ELSE LET c == Config(Map(e.file), Map(e.env)) w == {o \in 1..N : e.res[o] # c[o]} IN
       IF w = {} THEN "" ELSE "an option has another value than configured: " \o e.names[CHOOSE o \in w : \A p \in w : o <= p]
TInit == t \in 1..Len(Traces) /\ i = 1
TNext == /\ i <= Len(Traces[t])
         /\ LET v == Verdict(E) IN IF v # "" THEN PrintT(<<"BAD", t, i, v>>) /\ FALSE ELSE TRUE
         /\ i' = i + 1 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_<<t, i>>
Track == IF TLCGet(t) < i THEN TLCSet(t, i) ELSE TRUE
ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)
Report == \A k \in 1..Len(Traces) : PrintT(<<"REACHED", k, TLCGet(k), Len(Traces[k])>>)
=============================================================================

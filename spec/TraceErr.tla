------------------------------ MODULE TraceErr ------------------------------
(* C22: what callers were told, checked against what failed (see ErrMap for the design)                              *)
EXTENDS ErrTerms, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, api, codes, obj
vars == <<api, codes, obj>>
tvars == <<t, i, vars>>
E == Traces[t][i]
Set(q) == {q[k] : k \in 1..Len(q)}
Embeds(x) == \E k \in 1..Len(x.w) : x.w[k] = "e"
KindCodes(k) == IF k \in DOMAIN RealCode THEN {RealCode[k]} ELSE IF k \in DOMAIN RealRest THEN {RealRest[k]} ELSE RealSet[k]
(* an embedded object arrives too, unless it is not the innermost error that carried it                               *)
Verdict(e) ==
  CASE e.e = "is" ->
         (CASE e.err = "panic" -> "an error makes the classification panic"
            [] e.code \notin Codes(e.t) -> "an error is given the wrong code"
            [] e.t.with = "" /\ Set(e.classes) # IsSet(e.t) -> "an error is recognized as another class"
            [] ~(Set(e.classes) \subseteq IsSet(e.t)) -> "an error is recognized as another class"
            [] OTHER -> "")
    [] e.e = "ret" ->
         (CASE e.err = "panic" -> "a call panics"
            [] e.err = "endless" -> "a call does not end"
            [] api = "rest" /\ codes = {} -> (IF e.http \in 200..299 THEN "" ELSE "the gateway reports a failure where nothing failed")
            [] api = "rest" /\ e.http < 400 -> "the gateway answers a failed call with a success"
            [] api = "rest" -> (IF \E c \in codes : HttpOK(c, e.http) THEN "" ELSE "the gateway answers with the wrong status")
            [] codes = {} -> (IF e.code = "OK" THEN "" ELSE "a failure is reported where nothing failed")
            [] e.code = "OK" /\ "OK" \in codes -> ""
            [] e.code = "OK" -> "success is reported for a failure"
            [] e.code \notin codes -> "a failure is reported with the wrong code"
            [] Class(e.code) \notin Set(e.classes) \/ (api = "grpc" /\ Set(e.classes) # {Class(e.code)}) -> "the client sees another class of error"
            [] obj /\ e.obj # 5 -> "the object embedded in the error did not reach the client"
            [] OTHER -> "")
    [] OTHER -> ""
TInit == t \in 1..Len(Traces) /\ i = 1 /\ api = "" /\ codes = {} /\ obj = FALSE
TNext ==
  /\ i <= Len(Traces[t])
  /\ LET v == Verdict(E) IN IF v # "" THEN PrintT(<<"BAD", t, i, v>>) /\ FALSE ELSE TRUE
  /\ i' = i + 1 /\ UNCHANGED t
  /\ api' = (IF E.e = "call" THEN E.api ELSE api)
  /\ codes' = (IF E.e = "fail" THEN codes \cup Codes(E.t) ELSE IF E.e = "bad" THEN KindCodes(E.kind) ELSE codes)
  /\ obj' = (IF E.e = "fail" THEN Embeds(E.t) ELSE obj)
TSpec == TInit /\ [][TNext]_tvars
Track == IF TLCGet(t) < i THEN TLCSet(t, i) ELSE TRUE
ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)
Report == \A k \in 1..Len(Traces) : PrintT(<<"REACHED", k, TLCGet(k), Len(Traces[k])>>)
=============================================================================

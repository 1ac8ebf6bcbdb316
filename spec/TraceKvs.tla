------------------------------- MODULE TraceKvs -------------------------------
(* C15: histories of calls on a key-value storage, recorded from the real code, against the meaning of the versioned  *)
(* key-value storage: every call takes effect at one moment between its start and its return (calls on several keys at *)
(* one moment per key). The outcome of a call is known when it starts (res). Times are microseconds.                   *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i,
          st,    \* [key -> record: val (0: absent), ver (0: not known yet), exp (as given), elo..ehi (when it expires, 0: never), cht]
          known, \* versions that were given: <<key, version>>
          pend,  \* [thread -> the call that goes on]
          todo,  \* [thread -> the parts of it that have not taken effect]
          lt,    \* time of the last effect
          canc   \* [thread -> the context of its call has ended], 0: all contexts have
vars == <<st, known, pend, todo, lt, canc>>
tvars == <<t, i, vars>>
E == Traces[t][i]
Cfg == Traces[t][1]
Slack == IF Cfg.kind = "mem" THEN -1 ELSE 150000
None == [val |-> 0, ver |-> 0, exp |-> 0, elo |-> 0, ehi |-> 0, cht |-> 0]
Idle == [op |-> ""]
Max(a, b) == IF a > b THEN a ELSE b
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Parts(c) == 1..Len(c.p)

\* a part p of a call: [k, err, val, ver, exp (of what was read), wval, wexp, elo, ehi (of what it writes), given]
CanLive(r, lo) == r.val # 0 /\ (r.ehi = 0 \/ r.ehi >= lo)
CanGone(r) == r.val = 0 \/ (r.elo # 0 /\ r.elo <= E.t)
GoneAt(r, lo) == IF r.val = 0 \/ r.elo = 0 THEN lo ELSE Max(lo, r.elo)
\* the stored version is v, or may be
Is(r, k, v) == v # 0 /\ (r.ver = v \/ (r.ver = 0 /\ <<k, v>> \notin known))
New(k, v) == v # 0 /\ <<k, v>> \notin known
Written(p, v, at) == [val |-> p.wval, ver |-> v, exp |-> p.wexp, elo |-> p.elo, ehi |-> p.ehi, cht |-> at]
Sees(r, p) == r.val = p.val /\ r.exp = p.exp /\ Is(r, p.k, p.ver)

\* what a part may do: set of [rec (what is stored then), v (version learned, 0: none), lo (not before)]
Outcome(rec, v, lo) == [rec |-> rec, v |-> v, lo |-> lo]
Effects(th, c, p, lo) ==
  LET r == st[p.k]
      gone == IF CanGone(r) THEN {Outcome([None EXCEPT !.cht = IF r.val = 0 THEN r.cht ELSE Max(r.ehi, E.t)], 0, GoneAt(r, lo))} ELSE {}
      live == CanLive(r, lo)
      learn == Outcome([r EXCEPT !.ver = p.ver], p.ver, lo)
      keep == Outcome(r, 0, lo)
      write == Outcome(Written(p, p.ver, E.t), p.ver, lo) IN
  CASE c.op = "create" -> (CASE p.err = "" -> {Outcome(Written(p, p.ver, E.t), p.ver, g.lo) : g \in {x \in gone : New(p.k, p.ver)}}
                             [] p.err = "Exist" -> IF live /\ Is(r, p.k, p.ver) THEN {learn} ELSE {}
                             [] OTHER -> {})
    [] c.op = "put" -> IF p.err = "" /\ New(p.k, p.ver) THEN {write} ELSE {}
    [] c.op = "putmany" -> IF p.err = "" THEN {Outcome(Written(p, 0, E.t), 0, lo)} ELSE {}
    [] c.op = "cas" -> (CASE p.err = "" -> IF live /\ Is(r, p.k, p.given) /\ New(p.k, p.ver) /\ p.ver # p.given THEN {write} ELSE {}
                          [] p.err = "Conflict" -> IF live /\ r.ver # p.given THEN {keep} ELSE {}
                          [] p.err = "NotExist" -> gone
                          [] OTHER -> {})
    [] c.op = "delete" -> (CASE p.err = "" -> IF live THEN {Outcome([None EXCEPT !.cht = E.t], 0, lo)} ELSE {}
                             [] p.err = "NotExist" -> gone
                             [] OTHER -> {})
    [] c.op \in {"get", "getmany"} -> (CASE p.err = "" -> IF live /\ Sees(r, p) THEN {learn} ELSE {}
                                         [] p.err = "NotExist" -> gone
                                         [] OTHER -> {})
    [] c.op = "list" -> (CASE p.err = "" -> IF live THEN {keep} ELSE {}
                           [] p.err = "NotExist" -> gone
                           [] OTHER -> {})
    [] c.op = "wait" -> (CASE p.err = "" -> IF live /\ r.ver # p.given THEN {keep} ELSE {}
                           [] p.err = "NotExist" -> gone
                           [] p.err = "ctx" -> IF canc[th] \/ canc[0] THEN {keep} ELSE {}
                           [] OTHER -> {})
    [] OTHER -> {}

\* (it is enough to let effects happen when something returns; the parts of a put of many happen one after the other)
Take(x) ==
  /\ i <= Len(Traces[t]) /\ E.e = "ret" /\ todo[x] # {} /\ pend[x].done
  /\ \E j \in (IF pend[x].op \in {"putmany"} THEN {Min(todo[x])} ELSE todo[x]) :
     LET lo == Max(lt, pend[x].t)
         p == pend[x].p[j] IN
     \E f \in Effects(x, pend[x], p, lo) :
        /\ st' = [st EXCEPT ![p.k] = f.rec]
        /\ known' = IF f.v # 0 THEN known \cup {<<p.k, f.v>>} ELSE known
        /\ lt' = f.lo /\ todo' = [todo EXCEPT ![x] = @ \ {j}]
  /\ UNCHANGED <<t, i, pend, canc>>

\* a waiter that has nothing to wait for
Stuck(x) ==
  /\ pend[x].op = "wait"
  /\ LET p == pend[x].p[1]
         r == st[p.k]
         over(since, more) == Max(since, pend[x].t) + more < E.t IN
     \/ r.val = 0 /\ over(r.cht, Slack)
     \/ r.val # 0 /\ r.ehi # 0 /\ over(r.ehi, Max(Slack, 5000))
     \/ r.val # 0 /\ r.ver # 0 /\ r.ver # p.given /\ over(r.cht, Slack)
     \/ (canc[x] \/ canc[0]) /\ over(0, Slack)
Threads == 1..Cfg.n
Verdict(e) ==
  CASE e.e = "call" -> IF pend[e.th].op # "" THEN "bad trace" ELSE ""
    [] e.e = "ret" -> (CASE e.err = "panic" -> "a call panicked"
                         [] e.err \notin {"", "NotExist", "Exist", "Conflict", "ctx"} -> "a call failed: " \o e.err
                         [] pend[e.th].op \in {"put", "getmany", "putmany", "list"} /\ e.err # "" -> "a call failed: " \o e.err
                         [] e.bad -> "a call returned another record than it wrote"
                         [] todo[e.th] # {} -> "none"
                         [] pend[e.th].op = "list" /\ e.dup -> "a key is listed twice"
                         [] pend[e.th].op = "list" /\ e.extra -> "a key is listed that nobody stored or that does not match"
                         [] OTHER -> "")
    [] e.e = "cancel" -> ""
    [] e.e = "quiet" -> (CASE \E x \in Threads : pend[x].op \notin {"", "wait"} -> "a call does not return"
                           [] \E x \in Threads : Stuck(x) -> "a waiter goes on waiting although the key has changed, is gone, or its context ended"
                           [] OTHER -> "")
    [] e.e = "hang" -> "a call does not return"
    [] OTHER -> "unknown event"

TInit == /\ t \in 1..Len(Traces) /\ i = 2
         /\ st = [k \in 1..4 |-> None] /\ known = {} /\ lt = 0 /\ canc = [x \in 0..Traces[t][1].n |-> FALSE]
         /\ pend = [x \in 1..Traces[t][1].n |-> Idle] /\ todo = [x \in 1..Traces[t][1].n |-> {}]
Advance ==
  /\ i <= Len(Traces[t])
  /\ LET v == Verdict(E) IN IF v = "none" THEN FALSE ELSE IF v # "" THEN PrintT(<<"BAD", t, i, v>>) /\ FALSE ELSE TRUE
  /\ i' = i + 1 /\ UNCHANGED t
  /\ pend' = (CASE E.e = "call" -> [pend EXCEPT ![E.th] = E.c]
                [] E.e = "ret" -> [pend EXCEPT ![E.th] = Idle]
                [] OTHER -> pend)
  /\ todo' = IF E.e = "call" THEN [todo EXCEPT ![E.th] = Parts(E.c)] ELSE todo
  /\ canc' = (CASE E.e = "cancel" -> [canc EXCEPT ![E.th] = TRUE] [] E.e = "call" -> [canc EXCEPT ![E.th] = FALSE] [] OTHER -> canc)
  /\ UNCHANGED <<st, known, lt>>
TNext == Advance \/ \E x \in DOMAIN todo : Take(x)
TSpec == TInit /\ [][TNext]_tvars
Track == IF TLCGet(t) < i THEN TLCSet(t, i) ELSE TRUE
ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)
Report == \A k \in 1..Len(Traces) : PrintT(<<"REACHED", k, TLCGet(k), Len(Traces[k])>>)
=============================================================================

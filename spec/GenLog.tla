------------------------------- MODULE GenLog -------------------------------
(* generates histories of log operations for the replay harness; payload sizes aim at the room that the      *)
(* design says is left in the last chunk                                                                    *)
EXTENDS SolarisLog, Json, IOUtils, Randomization

CONSTANTS Steps
VARIABLES hist, cfg

Profile == IF "PROFILE" \in DOMAIN IOEnv THEN IOEnv.PROFILE ELSE "basic"

R(S) == RandomElement(S)
P(n) == R(1..100) <= n     \* with probability n%

Kb == 1024
\* logh's chunk configurations: newsize, maxchunk, maxgrow
Shapes == {[newsize |-> 4096, maxchunk |-> 4096, maxgrow |-> 4096],
           [newsize |-> 4096, maxchunk |-> 8192, maxgrow |-> 4096],
           [newsize |-> 4096, maxchunk |-> 16384, maxgrow |-> 4096],
           [newsize |-> 4096, maxchunk |-> 20480, maxgrow |-> 8192],
           [newsize |-> 8192, maxchunk |-> 24576, maxgrow |-> 1048576],
           [newsize |-> 65536, maxchunk |-> 2097152, maxgrow |-> 1048576]}
SmallShapes == {s \in Shapes : s.maxchunk <= 8192}

\* the configuration is chosen by the first step: initial states are computed only once per run of TLC
GInit == Init /\ cfg = [maxchunk |-> 0] /\ hist = <<>>
Setup == /\ cfg.maxchunk = 0
         /\ \E s \in {R(IF Profile \in {"append", "crash"} THEN {x \in Shapes : x.maxchunk <= 24576}
                        ELSE IF Profile = "cond" THEN SmallShapes ELSE Shapes)} :
            \E nl \in {IF Profile = "multi" THEN R(2..7) ELSE IF Profile = "big" THEN R(1..3) ELSE IF Profile = "fault" THEN R(1..5) ELSE IF Profile = "cond" THEN R({1, 1, 2}) ELSE R(1..3)} :
              cfg' = [newsize |-> s.newsize, maxchunk |-> s.maxchunk, maxgrow |-> s.maxgrow,
                     maxrecs |-> IF Profile = "big" THEN R({60, 100, 1000, 1000}) ELSE R({1, 2, 3, 5, 10, 1000}),
                     maxbunch |-> IF Profile = "big" THEN 100000 ELSE R({1, 100, 5000, 100000}),
                     maxlocks |-> R({1, 2, 100}), maxopened |-> R({1, 1, 2, 3, 100}),
                     cached |-> R({TRUE, TRUE, FALSE}), nlogs |-> nl]
         /\ UNCHANGED <<hist, cat, clock, seqn>>

MC == cfg.maxchunk
GLogs == 1..cfg.nlogs

\* room in the last chunk of log l with the generated maximum chunk size
GRoom(l) == IF cat[l] = <<>> THEN MC - Hdr ELSE MC - Used(cat[l][Len(cat[l])])

Max2(a, b) == IF a > b THEN a ELSE b
Small == {0, 1, 2, 7, 24, 31, 100, 500, 1000}
LenChoice(l) ==
  LET room == GRoom(l) IN
  CASE P(40) -> R(Small)
    [] P(50) -> Max2(0, room - Meta + R({-Meta - 1, -Meta, -1, 0, 1, Meta, -2 * Meta, 5}))   \* exactly at the end of the chunk
    [] P(40) -> Max2(0, (room \div 2) - Meta + R({-1, 0, 1}))
    [] P(30) -> Max2(0, MC - Hdr - Meta + R({-Meta, -1, 0}))         \* a chunk of its own
    [] P(40) -> Max2(0, 4096 - Hdr - Meta + R({-1, 0, 1}))
    [] Profile \in {"append", "crash"} /\ P(30) -> MC - Hdr - Meta + R({1, 24, 5000})  \* cannot fit at all
    [] OTHER -> R(0..3000)

Cap(n) == IF MC > 100000 /\ n > 60000 THEN n % 60000 ELSE n

GAppend ==
  \E l \in {R(GLogs)} : \E n \in {IF Profile = "big" THEN R({60, 99, 100, 101, 120}) ELSE IF P(5) THEN R({40, 120}) ELSE R(1..6)} :
    \E lens \in {[i \in 1..n |-> IF Profile = "big" THEN R({0, 1, 7, 24}) ELSE IF n > 10 THEN R(Small) ELSE Cap(LenChoice(l))]} :
      \E recs \in {NewRecs(lens, lens)} :
      /\ cat' = [cat EXCEPT ![l] = LET a == LET RECURSIVE A(_)
                                               A(k) == IF k > n \/ Hdr + Meta + lens[k] > MC THEN k - 1 ELSE A(k + 1)
                                           IN A(1)
                                      rr == SubSeq(recs, 1, a)
                                      lay == LET RECURSIVE L(_, _, _)
                                                 FN(ls, room) == FitN(ls, room)
                                                 L(ls, room, fresh) ==
                                                    IF ls = <<>> THEN <<>>
                                                    ELSE LET m == FN(ls, room) IN
                                                         IF m = 0 THEN (IF fresh THEN <<>> ELSE L(ls, MC - Hdr, TRUE))
                                                         ELSE <<[new |-> fresh, n |-> m]>> \o L(SubSeq(ls, m + 1, Len(ls)), MC - Hdr, TRUE)
                                             IN IF @ = <<>> THEN L(SubSeq(lens, 1, a), MC - Hdr, TRUE)
                                                ELSE L(SubSeq(lens, 1, a), GRoom(l), FALSE)
                                  IN Place(@, rr, lay)]
      /\ seqn' = seqn + n
      /\ UNCHANGED clock
      /\ hist' = Append(hist, [op |-> "append", log |-> l, lens |-> lens, expand |-> R(BOOLEAN),
                              \* the caller's context ends at the n-th statement of the store
                              cancel |-> IF Profile = "append" /\ P(35) THEN R({R(1..40), R(1..150), R(1..400)}) ELSE 0])

StartChoice(z_) == CASE P(35) -> [k |-> "none", i |-> 0, d |-> 0]
                 [] P(85) -> [k |-> "rec", i |-> R(0..100), d |-> R({-1, 0, 0, 1})]
                 [] P(50) -> [k |-> "min", i |-> 0, d |-> 0]
                 [] OTHER -> [k |-> "max", i |-> 0, d |-> 0]

Cmps == {"<", ">", "<=", ">=", "=", "!="}
LeafCond(z_) == IF P(88) THEN [k |-> "cmp", c |-> R(Cmps), i |-> R(0..60), d |-> R({-3, -2, -1, 0, 0, 0, 1, 2, 3}), a |-> <<>>, f |-> R(0..9)]
            ELSE [k |-> "far", c |-> R(Cmps), i |-> R({-2, -1, 1, 2}), d |-> 0, a |-> <<>>, f |-> R(0..9)]
RECURSIVE CondChoice(_)
CondChoice(d) ==
  IF d = 0 \/ P(25) THEN LeafCond(d)
  ELSE CASE P(40) -> [k |-> "and", c |-> "", i |-> 0, d |-> 0, f |-> 0, a |-> [j \in 1..R(2..3) |-> CondChoice(d - 1)]]
         [] P(66) -> [k |-> "or", c |-> "", i |-> 0, d |-> 0, f |-> 0, a |-> [j \in 1..R(2..3) |-> CondChoice(d - 1)]]
         [] OTHER -> [k |-> "not", c |-> "", i |-> 0, d |-> 0, f |-> 0, a |-> <<CondChoice(d - 1)>>]
NoCond == [k |-> "none", c |-> "", i |-> 0, d |-> 0, f |-> 0, a |-> <<>>]
BadCond(z_) == [k |-> "bad", c |-> "", i |-> R(0..200), d |-> 0, f |-> 0, a |-> <<>>]

SomeLogs(z_) == LET S == R(SUBSET GLogs) IN SetToSeq(IF S = {} THEN GLogs ELSE S)
LogsChoice(z_) == IF Profile \in {"multi", "fault", "big"} THEN (IF P(15) THEN <<R(GLogs)>> ELSE SomeLogs(z_))
              ELSE IF P(80) THEN <<R(GLogs)>> ELSE SomeLogs(z_)
LimitChoice(z_) == IF Profile = "big" THEN R({99, 100, 101, 150, 200, 250, 1000}) ELSE IF P(4) /\ Profile = "page" THEN R({0, -1}) ELSE R({1, 1, 2, 3, 4, 7, 50, 99, 100, 101, 1000})
CondPick(z_) == CASE Profile = "cond" -> (IF P(10) THEN BadCond(z_) ELSE CondChoice(3))
              [] Profile \in {"count", "multi", "page", "fault", "big"} /\ P(30) -> CondChoice(1)
              [] OTHER -> NoCond

Q(op) == [op |-> op, logs |-> LogsChoice(op), sel |-> R({"ids", "dup", "cond"}), start |-> StartChoice(op),
          desc |-> R(BOOLEAN), limit |-> LimitChoice(op), cond |-> CondPick(op)]

GRead == \E op \in {CASE Profile = "page" -> "page"
                      [] Profile = "count" -> R({"count", "count", "count", "page"})
                      [] Profile = "cond" -> R({"page", "page", "query", "count"})
                      [] Profile = "append" -> R({"catalog", "page"})
                      [] OTHER -> R({"page", "query"})} :
           /\ hist' = Append(hist, IF op = "catalog" THEN [op |-> op, log |-> R(GLogs)] ELSE Q(op))
           /\ UNCHANGED <<cat, clock, seqn>>

GTick == Tick /\ hist' = Append(hist, [op |-> "tick"])
GReopen == UNCHANGED <<cat, clock, seqn>> /\ hist' = Append(hist, [op |-> "reopen"])
\* a query or count while a chunk file is missing, or a call of the log store or of the catalogue fails
GFault ==
  /\ UNCHANGED <<cat, clock, seqn>>
  /\ hist' = Append(hist, [op |-> "faulty", kind |-> R({"hide", "logerr", "logerr", "metaerr"}), n |-> R(0..5),
                           q |-> Q(R({"count", "query", "page"}))])

NSteps == IF Profile = "big" THEN 12 ELSE Steps
AppendW == IF Profile \in {"append", "crash"} THEN 65 ELSE 40
GStep == /\ Len(hist) < NSteps /\ cfg.maxchunk > 0
         /\ UNCHANGED cfg
         /\ \E w \in {R(1..100)} :
              CASE w <= AppendW \/ Len(hist) < 2 -> GAppend
                [] w <= AppendW + 8 -> GTick
                [] w <= AppendW + 12 -> GReopen
                [] Profile = "fault" /\ P(70) -> GFault
                [] OTHER -> GRead

GNext == Setup \/ GStep
GSpec == GInit /\ [][GNext]_<<vars, hist, cfg>>

Emit == Len(hist) < NSteps \/ PrintT(ToJson([cfg |-> cfg, ops |-> hist]))
=============================================================================

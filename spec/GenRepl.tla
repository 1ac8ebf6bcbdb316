------------------------------ MODULE GenRepl ------------------------------
(* histories for replh: appends, reads, uploads, deletions after synchronisation, restarts; with faults of the   *)
(* object store that hit the n-th call the operation makes                                                       *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC, Randomization
VARIABLES h, cfg
R(S) == RandomElement(S)
P(x) == R(1..100) <= x
Crashes == "PROFILE" \in DOMAIN IOEnv /\ IOEnv.PROFILE = "crash"
PutFaults == {"fail", "failread", "late", "trunc", "cancelfail", "cancelok"}
GetFaults == {"fail", "break", "trunc", "empty", "cancelfail", "cancelok", "notzip", "nofiles", "flip"}
NoFault == [at |-> 0, k |-> ""]
Disk(z) == [at |-> R({50, 200, 400, 1000, 3000}), k |-> "disk"]
Full(z) == IF P(25) THEN [at |-> R({8192, 12288, 20480, 36864}), k |-> "disk"] ELSE NoFault   \* the disk is full: chunk files cannot grow
FaultPut(p) == IF P(10) THEN Disk(p) ELSE IF P(p) THEN (IF P(25) /\ ~Crashes THEN [at |-> 1, k |-> "busy"] ELSE [at |-> 1, k |-> R(PutFaults)]) ELSE NoFault
FaultGet(p) == IF P(p) THEN [at |-> R(1..2), k |-> R(GetFaults)] ELSE IF P(5) THEN [at |-> 0, k |-> "pre"] ELSE NoFault
Op(o, l, c, lens, f) == [op |-> o, log |-> l, c |-> c, lens |-> lens, fault |-> f, crash |-> FALSE]
Cr(o) == [o EXCEPT !.crash = TRUE]
Lens(z) == CASE P(30) -> [j \in 1..R({30, 90, 130, 170, 200}) |-> 8]      \* mostly index: it moves over itself when the file grows
             [] P(30) -> [j \in 1..R(3..20) |-> R({8, 24, 100, 300})]
             [] OTHER -> [j \in 1..R(1..6) |-> R({8, 50, 700, 1300, 2500, 3900, 4040, 8000})]
CrashStep(z) ==
  LET w == R(1..100) IN
  CASE w <= 45 -> Op("append", R(1..cfg.nlogs), 0, Lens(z), Full(z))
    [] w <= 75 -> Cr(Op("append", R(1..cfg.nlogs), 0, Lens(z), NoFault))
    [] w <= 80 -> Cr(Op("sdel", 0, R(0..20), <<>>, NoFault))
    [] w <= 83 -> Cr(Op("up", 0, R(0..20), <<>>, NoFault))
    [] w <= 86 -> Cr(Op("down", 0, R(0..20), <<>>, NoFault))
    [] w <= 90 -> Op("sdel", 0, R(0..20), <<>>, NoFault)
    [] w <= 94 -> Op("reopen", 0, 0, <<>>, NoFault)
    [] OTHER -> Op("read", R(1..cfg.nlogs), 0, <<>>, NoFault)
Step(z) ==
  LET w == R(1..100) IN
  CASE w <= 25 -> Op("append", R(1..cfg.nlogs), 0, [j \in 1..R(1..4) |-> R({1, 50, 700, 1300, 2500, 3900})], IF P(15) THEN Full(z) ELSE FaultGet(20))
    [] w <= 45 -> Op("read", R(1..cfg.nlogs), 0, <<>>, IF P(10) THEN Disk(z) ELSE FaultGet(35))
    [] w <= 60 -> Op("up", 0, R(0..20), <<>>, FaultPut(45))
    [] w <= 90 -> Op("sdel", 0, R(0..20), <<>>, FaultPut(40))
    [] w <= 93 -> Op("hurt", 0, R(0..20), <<>>, NoFault)
    [] w <= 95 -> Op("reopen", 0, 0, <<>>, NoFault)
    [] OTHER -> Op("down", 0, R(0..20), <<>>, IF P(15) THEN Disk(z) ELSE IF P(15) THEN [at |-> 1, k |-> "busy"] ELSE FaultGet(40))
Steps == IF Crashes THEN 12 ELSE 26
Init == h = <<>> /\ cfg = [nlogs |-> 0]
Setup == /\ cfg.nlogs = 0
         /\ \E c \in {R({4096, 8192, 16384})} : cfg' = [nlogs |-> R(1..3), maxchunk |-> IF Crashes THEN R({8192, 16384, 32768, 65536}) ELSE c,
                                                            newsize |-> IF Crashes THEN R({4096, 4096, 8192}) ELSE 4096, maxgrow |-> R({4096, 4096, 65536}), maxopened |-> R({1, 1, 1, 2, 50}), cached |-> R(BOOLEAN)]
         /\ UNCHANGED h
Next == Setup \/ (cfg.nlogs > 0 /\ Len(h) < Steps /\ UNCHANGED cfg
                  /\ h' = Append(h, IF Len(h) < 2 THEN Op("append", 1, 0, [j \in 1..R(2..5) |-> R({50, 1300, 2500})], NoFault) ELSE IF Crashes THEN CrashStep(h) ELSE Step(h)))
Spec == Init /\ [][Next]_<<h, cfg>>
Emit == Len(h) < Steps \/ PrintT(ToJson([cfg |-> cfg, ops |-> h]))
=============================================================================

------------------------------ MODULE MetaCache ------------------------------
(* Design of pkg/storage/cache/cache.go over golibs/container/lru/ecache.go, for one key (keys are independent): readers      *)
(* look a value up and load it when it is missing; a writer changes the storage, which may fail before or after the change,   *)
(* and then invalidates the cache, whatever the storage said. A load that an invalidation overtakes is not cached.            *)
EXTENDS Integers, FiniteSets
CONSTANTS Threads, Ops,
          OnError,   \* a failed write invalidates too (TRUE in the code; FALSE shows why it must)
          Stale      \* a load that an invalidation overtakes is not cached (TRUE in the code)
None == -1
VARIABLES store,     \* the version the storage has
          cached,    \* None or the cached version
          infl, stale, \* the loading thread or 0; overtaken by an invalidation
          pc, val,   \* [Threads -> ...]: val: the version read or written
          lo,        \* the version that every call starting now must see at least
          at,        \* [Threads -> lo when its call started]
          ok,        \* [Threads -> the storage reported success]
          left
vars == <<store, cached, infl, stale, pc, val, lo, at, ok, left>>
Init == /\ store = 0 /\ cached = None /\ infl = 0 /\ stale = FALSE /\ lo = 0
        /\ pc = [t \in Threads |-> "idle"] /\ val = [t \in Threads |-> 0] /\ at = [t \in Threads |-> 0]
        /\ ok = [t \in Threads |-> TRUE] /\ left = [t \in Threads |-> Ops]
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Start(t, p) == pc[t] = "idle" /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1] /\ at' = [at EXCEPT ![t] = lo] /\ Go(t, p)
Read(t) == Start(t, "enter") /\ UNCHANGED <<store, cached, infl, stale, val, lo, ok>>
Write(t) == Start(t, "write") /\ UNCHANGED <<store, cached, infl, stale, val, lo, ok>>
Enter(t) ==
  /\ pc[t] = "enter"
  /\ IF cached # None THEN Go(t, "got") /\ val' = [val EXCEPT ![t] = cached] /\ UNCHANGED <<infl, stale>>
     ELSE IF infl # 0 THEN Go(t, "wait") /\ UNCHANGED <<val, infl, stale>>
     ELSE Go(t, "load") /\ infl' = t /\ stale' = FALSE /\ UNCHANGED val
  /\ UNCHANGED <<store, cached, lo, at, ok, left>>
Wake(t) == pc[t] = "wait" /\ infl = 0 /\ Go(t, "enter") /\ UNCHANGED <<store, cached, infl, stale, val, lo, at, ok, left>>
Load(t) == /\ pc[t] = "load"
           /\ \/ Go(t, "loaded") /\ val' = [val EXCEPT ![t] = store]
              \/ Go(t, "failed") /\ UNCHANGED val
           /\ UNCHANGED <<store, cached, infl, stale, lo, at, ok, left>>
Store(t) == /\ pc[t] \in {"loaded", "failed"} /\ infl' = 0
            /\ cached' = IF pc[t] = "loaded" /\ ~(stale /\ Stale) THEN val[t] ELSE cached
            /\ Go(t, IF pc[t] = "loaded" THEN "got" ELSE "idle") /\ UNCHANGED <<store, stale, val, lo, at, ok, left>>
Got(t) == pc[t] = "got" /\ Go(t, "idle") /\ UNCHANGED <<store, cached, infl, stale, val, lo, at, ok, left>>
\* the storage: succeeds, fails before the change or fails after it
Apply(t) == /\ pc[t] = "write" /\ Go(t, "inv")
            /\ \E s \in {TRUE, FALSE}, o \in {TRUE, FALSE} :
                 /\ o => s
                 /\ store' = IF s THEN store + 1 ELSE store
                 /\ val' = [val EXCEPT ![t] = store'] /\ ok' = [ok EXCEPT ![t] = o]
            /\ UNCHANGED <<cached, infl, stale, lo, at, left>>
Inv(t) == /\ pc[t] = "inv" /\ Go(t, "ret")
          /\ IF ok[t] \/ OnError THEN cached' = None /\ stale' = (stale \/ infl # 0) ELSE UNCHANGED <<cached, stale>>
          /\ UNCHANGED <<store, infl, val, lo, at, ok, left>>
Ret(t) == pc[t] = "ret" /\ Go(t, "idle") /\ lo' = (IF val[t] > lo THEN val[t] ELSE lo) /\ UNCHANGED <<store, cached, infl, stale, val, at, ok, left>>
Step(t) == Enter(t) \/ Wake(t) \/ Load(t) \/ Store(t) \/ Got(t) \/ Apply(t) \/ Inv(t) \/ Ret(t)
Next == \E t \in Threads : Read(t) \/ Write(t) \/ Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))
Fresh == \A t \in Threads : pc[t] = "got" => val[t] >= at[t] /\ val[t] <= store
Ends == \A t \in Threads : pc[t] # "idle" ~> pc[t] = "idle"
=============================================================================

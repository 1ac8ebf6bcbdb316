-------------------------------- MODULE Lru --------------------------------
(* Design of golibs/container/lru/ecache.go and expirable.go: threads look up, remove and clear values of a bounded cache *)
(* ordered by use. Every action is one critical section or one end of a load. A load that a removal overtakes is stale:   *)
(* its value goes to its caller but not into the cache.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, Keys, Max, Ops       \* Ops: calls per thread
VARIABLES items,    \* Seq of [k, v]: cached values, least recently used first
          infl,     \* [Keys -> 0 or the loading thread]
          stale,    \* [Keys -> BOOLEAN]: the load in flight was overtaken by a removal
          pc, arg, cur,  \* [Threads -> ...]: "idle" | "load" | "wait"; key; value being loaded (IDs are given when a load starts)
          n, left,  \* next value ID; calls left
          keyOf,    \* [value -> key]
          old,      \* values that expired
          rep,      \* values reported as deleted
          dead,     \* values no lookup that starts now may return
          deadAt,   \* [Threads -> dead when its call started]
          exp       \* [Threads -> the call already removed an expired value]
vars == <<items, infl, stale, pc, arg, cur, n, left, keyOf, old, rep, dead, deadAt, exp>>
Loaded(v) == v < n /\ \A t \in Threads : ~(pc[t] = "load" /\ cur[t] = v)
Vals == {items[x].v : x \in 1..Len(items)}
Has(k) == \E x \in 1..Len(items) : items[x].k = k
At(k) == CHOOSE x \in 1..Len(items) : items[x].k = k
Without(s, k) == SelectSeq(s, LAMBDA e : e.k # k)
Init == /\ items = <<>> /\ infl = [k \in Keys |-> 0] /\ stale = [k \in Keys |-> FALSE]
        /\ pc = [t \in Threads |-> "idle"] /\ arg = [t \in Threads |-> 0] /\ cur = [t \in Threads |-> 0]
        /\ n = 1 /\ left = [t \in Threads |-> Ops] /\ keyOf = <<>> /\ old = {} /\ rep = {} /\ dead = {}
        /\ deadAt = [t \in Threads |-> {}] /\ exp = [t \in Threads |-> FALSE]

\* the critical section at the head of GetOrCreate; da: dead when the call started, ex: an expired value was removed already
Enter(t, k, da, ex) ==
  IF Has(k) THEN
    LET e == items[At(k)] IN
      IF e.v \in old /\ ~ex
      THEN \* expirable.go: looks, and removes in a second critical section (merged here: the value is expired in both)
        /\ items' = Without(items, k) /\ rep' = rep \cup {e.v} /\ dead' = dead \cup {e.v}
        /\ pc' = [pc EXCEPT ![t] = "again"] /\ arg' = [arg EXCEPT ![t] = k] /\ deadAt' = [deadAt EXCEPT ![t] = da]
        /\ exp' = [exp EXCEPT ![t] = TRUE]
        /\ UNCHANGED <<infl, stale, cur, n, keyOf, old>>
      ELSE /\ items' = Append(Without(items, k), e) /\ pc' = [pc EXCEPT ![t] = "got"] /\ cur' = [cur EXCEPT ![t] = e.v]
           /\ arg' = [arg EXCEPT ![t] = k] /\ deadAt' = [deadAt EXCEPT ![t] = da] /\ exp' = [exp EXCEPT ![t] = ex]
           /\ UNCHANGED <<infl, stale, n, keyOf, old, rep, dead>>
  ELSE IF infl[k] # 0 THEN
    /\ pc' = [pc EXCEPT ![t] = "wait"] /\ arg' = [arg EXCEPT ![t] = k] /\ deadAt' = [deadAt EXCEPT ![t] = da] /\ exp' = [exp EXCEPT ![t] = ex]
    /\ UNCHANGED <<items, infl, stale, cur, n, keyOf, old, rep, dead>>
  ELSE
    /\ infl' = [infl EXCEPT ![k] = t] /\ stale' = [stale EXCEPT ![k] = FALSE]
    /\ pc' = [pc EXCEPT ![t] = "load"] /\ arg' = [arg EXCEPT ![t] = k] /\ cur' = [cur EXCEPT ![t] = n] /\ n' = n + 1
    /\ keyOf' = Append(keyOf, k) /\ deadAt' = [deadAt EXCEPT ![t] = da] /\ exp' = [exp EXCEPT ![t] = ex]
    /\ UNCHANGED <<items, old, rep, dead>>
Get(t, k) == pc[t] = "idle" /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1] /\ Enter(t, k, dead, FALSE)
Again(t) == /\ UNCHANGED left
            /\ \/ pc[t] = "again"
               \/ pc[t] = "wait" /\ (infl[arg[t]] = 0 \/ infl[arg[t]] = t)
            /\ Enter(t, arg[t], deadAt[t], exp[t])
\* the load ends: cached unless stale; the least recently used value makes room
Load(t) ==
  /\ pc[t] = "load" /\ infl' = [infl EXCEPT ![arg[t]] = 0]
  /\ LET k == arg[t]
         its == IF stale[k] THEN items ELSE Append(items, [k |-> k, v |-> cur[t]])
         over == Len(its) > Max
     IN /\ items' = IF over THEN Tail(its) ELSE its
        /\ rep' = rep \cup (IF stale[k] THEN {cur[t]} ELSE {}) \cup (IF over THEN {Head(its).v} ELSE {})
        /\ dead' = dead \cup (IF over THEN {Head(its).v} ELSE {})
  /\ pc' = [pc EXCEPT ![t] = "got"]
  /\ UNCHANGED <<stale, arg, cur, n, left, keyOf, old, deadAt, exp>>
Fail(t) ==
  /\ pc[t] = "load" /\ infl' = [infl EXCEPT ![arg[t]] = 0] /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ rep' = rep \cup {cur[t]}  \* (there is no value: nothing to report)
  /\ UNCHANGED <<items, stale, arg, cur, n, left, keyOf, old, dead, deadAt, exp>>
Got(t) == pc[t] = "got" /\ pc' = [pc EXCEPT ![t] = "idle"]
          /\ UNCHANGED <<items, infl, stale, arg, cur, n, left, keyOf, old, rep, dead, deadAt, exp>>
Of(ks) == {v \in 1..(n - 1) : keyOf[v] \in ks}
Take(t, ks) ==  \* Remove and Clear
  /\ pc[t] = "idle" /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1]
  /\ rep' = rep \cup {items[x].v : x \in {y \in 1..Len(items) : items[y].k \in ks}}
  /\ items' = SelectSeq(items, LAMBDA e : e.k \notin ks)
  /\ stale' = [k \in Keys |-> stale[k] \/ (k \in ks /\ infl[k] # 0)]
  /\ dead' = dead \cup Of(ks)
  /\ UNCHANGED <<infl, pc, arg, cur, n, keyOf, old, deadAt, exp>>
Expire(v) == /\ v \in Vals /\ v \notin old /\ old' = old \cup {v} /\ dead' = dead \cup {v}
             /\ UNCHANGED <<items, infl, stale, pc, arg, cur, n, left, keyOf, rep, deadAt, exp>>
Next == \E t \in Threads : \/ \E k \in Keys : Get(t, k) \/ Take(t, {k})
                           \/ Take(t, Keys) \/ Again(t) \/ Load(t) \/ Fail(t) \/ Got(t) \/ Expire(cur[t])
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Again(t)) /\ WF_vars(Load(t) \/ Fail(t)) /\ WF_vars(Got(t))

Bounded == Len(items) <= Max
OnePerKey == \A x, y \in 1..Len(items) : items[x].k = items[y].k => x = y
RightKey == \A t \in Threads : pc[t] = "got" => keyOf[cur[t]] = arg[t]
Fresh == \A t \in Threads : pc[t] = "got" => cur[t] \notin deadAt[t]
SingleFlight == \A a, b \in Threads : a # b /\ pc[a] = "load" /\ pc[b] = "load" => arg[a] # arg[b]
Accounted == \A v \in 1..(n - 1) : Loaded(v) => (v \in rep) # (v \in Vals)    \* cached or reported, not both
OnlyCached == Vals \cap rep = {}
Ends == \A t \in Threads : (pc[t] # "idle") ~> (pc[t] = "idle")
=============================================================================

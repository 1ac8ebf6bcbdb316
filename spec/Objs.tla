-------------------------------- MODULE Objs --------------------------------
(* C23: an object store (golibs/sss): keys are paths, sequences of names. A put reads its source first and stores the *)
(* value in one step then; a listing looks at the keys one by one, under the lock if Locked.                           *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Keys, C, Vals, Locked
VARIABLES objs,  \* [key -> value, 0: none]
          pc, arg,
          rest,  \* of a listing: the keys that were not looked at
          acc,   \* of a listing: what was found
          poss,  \* of a listing: the right answers at the moments since it began
          bad
vars == <<objs, pc, arg, rest, acc, poss, bad>>
Small == {<<1>>, <<2>>, <<1, 1>>, <<1, 2>>, <<1, 1, 1>>}
Names == 1..2
Big == {<<a>> : a \in Names} \cup {<<a, b>> : a \in Names, b \in Names} \cup {<<a, b, c>> : a \in Names, b \in Names, c \in Names}
IsPrefix(p, k) == Len(p) < Len(k) /\ SubSeq(k, 1, Len(p)) = p
\* what is directly under a path
Entry(p, k) == [n |-> k[Len(p) + 1], dir |-> Len(k) > Len(p) + 1]
Under(S, p) == {Entry(p, k) : k \in {x \in S : IsPrefix(p, x)}}
Stored == {k \in Keys : objs[k] # 0}
Paths == {<<>>} \cup {SubSeq(k, 1, Len(k) - 1) : k \in Keys}

Init == /\ objs \in [Keys -> 0..0] /\ pc = [c \in C |-> "idle"] /\ arg = [c \in C |-> <<>>]
        /\ rest = [c \in C |-> {}] /\ acc = [c \in C |-> {}] /\ poss = [c \in C |-> {}] /\ bad = FALSE
Free == ~Locked \/ \A c \in C : pc[c] # "list"
Set(k, v) == /\ objs' = [objs EXCEPT ![k] = v]
             /\ LET S == {x \in Keys : objs'[x] # 0} IN
                poss' = [c \in C |-> IF pc[c] = "list" THEN poss[c] \cup {Under(S, arg[c])} ELSE poss[c]]
Put(c, k) == /\ pc[c] = "idle" /\ pc' = [pc EXCEPT ![c] = "read"] /\ arg' = [arg EXCEPT ![c] = k] /\ UNCHANGED <<objs, rest, acc, poss, bad>>
SourceFails(c) == /\ pc[c] = "read" /\ pc' = [pc EXCEPT ![c] = "idle"] /\ UNCHANGED <<objs, arg, rest, acc, poss, bad>>
Store(c, v) == /\ pc[c] = "read" /\ Free /\ Set(arg[c], v) /\ pc' = [pc EXCEPT ![c] = "idle"] /\ UNCHANGED <<arg, rest, acc, bad>>
Delete(c, k) == /\ pc[c] = "idle" /\ Free /\ objs[k] # 0 /\ Set(k, 0) /\ UNCHANGED <<pc, arg, rest, acc, bad>>
List(c, p) == /\ pc[c] = "idle" /\ Free /\ pc' = [pc EXCEPT ![c] = "list"] /\ arg' = [arg EXCEPT ![c] = p]
              /\ rest' = [rest EXCEPT ![c] = Keys] /\ acc' = [acc EXCEPT ![c] = {}]
              /\ poss' = [poss EXCEPT ![c] = {Under(Stored, p)}] /\ UNCHANGED <<objs, bad>>
Look(c, k) == /\ pc[c] = "list" /\ k \in rest[c] /\ rest' = [rest EXCEPT ![c] = @ \ {k}]
              /\ acc' = [acc EXCEPT ![c] = IF objs[k] # 0 /\ IsPrefix(arg[c], k) THEN @ \cup {Entry(arg[c], k)} ELSE @]
              /\ UNCHANGED <<objs, pc, arg, poss, bad>>
Listed(c) == /\ pc[c] = "list" /\ rest[c] = {} /\ pc' = [pc EXCEPT ![c] = "idle"] /\ bad' = (bad \/ acc[c] \notin poss[c])
             /\ acc' = [acc EXCEPT ![c] = {}] /\ poss' = [poss EXCEPT ![c] = {}] /\ arg' = [arg EXCEPT ![c] = <<>>] /\ UNCHANGED <<objs, rest>>
\* (the order in which the keys are looked at: as they come, if nobody can interfere)
Next == \E c \in C : (\E k \in Keys : Put(c, k) \/ Delete(c, k)) \/ SourceFails(c) \/ (\E v \in Vals : Store(c, v))
                  \/ (\E p \in Paths : List(c, p)) \/ Listed(c)
                  \/ (\E k \in rest[c] : (Locked => k = CHOOSE x \in rest[c] : TRUE) /\ Look(c, k))
Spec == Init /\ [][Next]_vars
\* a listing is what is under the path at one moment
Linearizable == ~bad
\* whoever lists everything from the root finds every key, and nothing else
RECURSIVE Walk(_, _, _)
Walk(S, p, d) == UNION {IF e.dir THEN (IF d = 0 THEN {} ELSE Walk(S, Append(p, e.n), d - 1)) ELSE {Append(p, e.n)} : e \in Under(S, p)}
Complete == Walk(Stored, <<>>, 3) = Stored
NoEmptyPaths == \A p \in Paths : \A e \in Under(Stored, p) : e.dir => Under(Stored, Append(p, e.n)) # {}
=============================================================================

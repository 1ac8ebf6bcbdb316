-------------------------------- MODULE Lin --------------------------------
(* Design of concurrent appends and reads (pkg/storage/logfs/locallog.go over chunkfs.Provider): a bounded pool of log lockers    *)
(* (shared by the calls of a log), a lock per log for appends, a bounded pool of opened chunk files (shared by their users), the    *)
(* catalogue as the point where an append takes effect, and reads that go by the catalogue they saw at their start.                *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, Logs, MaxLocks, MaxOpened, Cap, Ops, Batches
VARIABLES cat,      \* [log -> Seq of [ch, n]]: the catalogue
          file,     \* [chunk -> Seq of values]: chunk files
          hist,     \* [log -> Seq of values]: what the appends have made of the log (specification)
          slots,    \* [log -> threads sharing its locker]; a log with users or idle takes a place in the pool
          locked,   \* [log -> 0 or the appending thread]
          users,    \* [chunk -> threads that use the opened file]
          pc, lg, batch, snap, res, idx, cur, want, \* the calls
          nv, nc, left
vars == <<cat, file, hist, slots, locked, users, pc, lg, batch, snap, res, idx, cur, want, nv, nc, left>>
Chunks == 1..nc
Sum(c) == LET RECURSIVE S(_) S(x) == IF x = 0 THEN 0 ELSE c[x].n + S(x - 1) IN S(Len(c))
InUse == {c \in Chunks : users[c] # {}}
Locks == {l \in Logs : slots[l] # {}}
Init == /\ cat = [l \in Logs |-> <<>>] /\ file = <<>> /\ hist = [l \in Logs |-> <<>>] /\ slots = [l \in Logs |-> {}]
        /\ locked = [l \in Logs |-> 0] /\ users = <<>>
        /\ pc = [t \in Threads |-> "idle"] /\ lg = [t \in Threads |-> CHOOSE l \in Logs : TRUE] /\ batch = [t \in Threads |-> <<>>]
        /\ snap = [t \in Threads |-> <<>>] /\ res = [t \in Threads |-> <<>>] /\ idx = [t \in Threads |-> 0] /\ cur = [t \in Threads |-> 0]
        /\ want = [t \in Threads |-> <<>>] /\ nv = 0 /\ nc = 0 /\ left = [t \in Threads |-> Ops]
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
\* a call starts: it waits for a place in the pool of lockers (idle lockers give way)
Append_(t, l, n) == /\ pc[t] = "idle" /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1] /\ Go(t, "alock") /\ lg' = [lg EXCEPT ![t] = l]
                    /\ batch' = [batch EXCEPT ![t] = [x \in 1..n |-> nv + x]] /\ nv' = nv + n
                    /\ UNCHANGED <<cat, file, hist, slots, locked, users, snap, res, idx, cur, want, nc>>
Read_(t, l) == /\ pc[t] = "idle" /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1] /\ Go(t, "rlock") /\ lg' = [lg EXCEPT ![t] = l]
               /\ res' = [res EXCEPT ![t] = <<>>]
               /\ UNCHANGED <<cat, file, hist, slots, locked, users, batch, snap, idx, cur, want, nv, nc>>
Slot(t, to) == /\ slots[lg[t]] # {} \/ Cardinality(Locks) < MaxLocks
               /\ slots' = [slots EXCEPT ![lg[t]] = @ \cup {t}] /\ Go(t, to)
ALock(t) == pc[t] = "alock" /\ Slot(t, "amutex")
            /\ UNCHANGED <<cat, file, hist, locked, users, lg, batch, snap, res, idx, cur, want, nv, nc, left>>
AMutex(t) == /\ pc[t] = "amutex" /\ locked[lg[t]] = 0 /\ locked' = [locked EXCEPT ![lg[t]] = t] /\ Go(t, "apick")
             /\ snap' = [snap EXCEPT ![t] = cat[lg[t]]] /\ idx' = [idx EXCEPT ![t] = 0]   \* idx: values written
             /\ UNCHANGED <<cat, file, hist, slots, users, lg, batch, res, cur, want, nv, nc, left>>
\* the chunk the next values go to: the last one, or a new one
APick(t) ==
  /\ pc[t] = "apick"
  /\ LET s == snap[t]
         room == s # <<>> /\ s[Len(s)].n < Cap
     IN IF room THEN cur' = [cur EXCEPT ![t] = s[Len(s)].ch] /\ UNCHANGED <<nc, file, users, snap>>
        ELSE /\ nc' = nc + 1 /\ file' = Append(file, <<>>) /\ users' = Append(users, {}) /\ cur' = [cur EXCEPT ![t] = nc + 1]
             /\ snap' = [snap EXCEPT ![t] = Append(@, [ch |-> nc + 1, n |-> 0])]
  /\ Go(t, "aopen") /\ UNCHANGED <<cat, hist, slots, locked, lg, batch, res, idx, want, nv, left>>
CanOpen(c) == users[c] # {} \/ Cardinality(InUse) < MaxOpened
AOpen(t) == /\ pc[t] = "aopen" /\ CanOpen(cur[t]) /\ users' = [users EXCEPT ![cur[t]] = @ \cup {t}] /\ Go(t, "awrite")
            /\ UNCHANGED <<cat, file, hist, slots, locked, lg, batch, snap, res, idx, cur, want, nv, nc, left>>
AWrite(t) == /\ pc[t] = "awrite"
             /\ LET n == Cap - snap[t][Len(snap[t])].n
                    m == Len(batch[t]) - idx[t]
                    w == IF m < n THEN m ELSE n
                IN /\ file' = [file EXCEPT ![cur[t]] = SubSeq(@, 1, snap[t][Len(snap[t])].n) \o SubSeq(batch[t], idx[t] + 1, idx[t] + w)]
                   /\ snap' = [snap EXCEPT ![t][Len(snap[t])].n = @ + w] /\ idx' = [idx EXCEPT ![t] = @ + w]
             /\ users' = [users EXCEPT ![cur[t]] = @ \ {t}]
             /\ Go(t, IF idx'[t] = Len(batch[t]) THEN "acommit" ELSE "apick")
             /\ UNCHANGED <<cat, hist, slots, locked, lg, batch, res, cur, want, nv, nc, left>>
ACommit(t) == /\ pc[t] = "acommit" /\ cat' = [cat EXCEPT ![lg[t]] = snap[t]] /\ hist' = [hist EXCEPT ![lg[t]] = @ \o batch[t]]
              /\ locked' = [locked EXCEPT ![lg[t]] = 0] /\ slots' = [slots EXCEPT ![lg[t]] = @ \ {t}] /\ Go(t, "idle")
              /\ UNCHANGED <<file, users, lg, batch, snap, res, idx, cur, want, nv, nc, left>>
RLock(t) == pc[t] = "rlock" /\ Slot(t, "rsnap")
            /\ UNCHANGED <<cat, file, hist, locked, users, lg, batch, snap, res, idx, cur, want, nv, nc, left>>
RSnap(t) == /\ pc[t] = "rsnap" /\ snap' = [snap EXCEPT ![t] = cat[lg[t]]] /\ want' = [want EXCEPT ![t] = hist[lg[t]]]
            /\ idx' = [idx EXCEPT ![t] = 1] /\ Go(t, IF cat[lg[t]] = <<>> THEN "rend" ELSE "ropen")
            /\ UNCHANGED <<cat, file, hist, slots, locked, users, lg, batch, res, cur, nv, nc, left>>
ROpen(t) == LET c == snap[t][idx[t]].ch IN
            /\ pc[t] = "ropen" /\ CanOpen(c) /\ users' = [users EXCEPT ![c] = @ \cup {t}] /\ Go(t, "rread")
            /\ UNCHANGED <<cat, file, hist, slots, locked, lg, batch, snap, res, idx, cur, want, nv, nc, left>>
RRead(t) == LET c == snap[t][idx[t]] IN
            /\ pc[t] = "rread" /\ res' = [res EXCEPT ![t] = @ \o SubSeq(file[c.ch], 1, c.n)] /\ users' = [users EXCEPT ![c.ch] = @ \ {t}]
            /\ idx' = [idx EXCEPT ![t] = @ + 1] /\ Go(t, IF idx[t] = Len(snap[t]) THEN "rend" ELSE "ropen")
            /\ UNCHANGED <<cat, file, hist, slots, locked, lg, batch, snap, cur, want, nv, nc, left>>
REnd(t) == /\ pc[t] = "rend" /\ slots' = [slots EXCEPT ![lg[t]] = @ \ {t}] /\ Go(t, "idle")
           /\ UNCHANGED <<cat, file, hist, locked, users, lg, batch, snap, res, idx, cur, want, nv, nc, left>>
Step(t) == ALock(t) \/ AMutex(t) \/ APick(t) \/ AOpen(t) \/ AWrite(t) \/ ACommit(t) \/ RLock(t) \/ RSnap(t) \/ ROpen(t) \/ RRead(t) \/ REnd(t)
Next == \E t \in Threads : (\E l \in Logs : Read_(t, l) \/ \E n \in Batches : Append_(t, l, n)) \/ Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : SF_vars(Step(t))

Linear == \A t \in Threads : pc[t] = "rend" => res[t] = want[t]          \* what the log was when the read took its snapshot
Faithful == \A l \in Logs : Sum(cat[l]) = Len(hist[l])
Sized == \A c \in Chunks : Len(file[c]) <= Cap
Pools == Cardinality(Locks) <= MaxLocks /\ Cardinality(InUse) <= MaxOpened
Ends == \A t \in Threads : pc[t] # "idle" ~> pc[t] = "idle"
=============================================================================

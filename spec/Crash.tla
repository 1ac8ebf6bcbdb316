------------------------------- MODULE Crash -------------------------------
(* Design of an append to the last chunk of a log with the process dying at any step (pkg/storage/chunkfs chunk.go, *)
(* logfs locallog.go). The file is an array of cells: the payload of the record k is the cell k from the start, its *)
(* index entry the k-th cell from the end, so growing the file means moving the index, possibly over itself. The    *)
(* header has the number of records, and the size the index is being moved from with the number of moved entries.   *)
(* The catalogue has the number of records registered; an append is acknowledged after that.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Sizes,      \* the sizes the file may have
          MaxRecs,    \* records submitted in total
          MaxBatch, MaxCrashes
Empty == 0            \* content of a cell; a record is its serial number

VARIABLES cell,       \* the cells of the file
          total, from, moved,  \* the header
          reg,        \* the catalogue: sequence of the registered records
          acked,      \* the sequence of acknowledged records
          pc, batch, w,  \* the running append: its records and how many cells it has written
          serial, crashes, up
vars == <<cell, total, from, moved, reg, acked, pc, batch, w, serial, crashes, up>>

Size == Len(cell)
Min(a, b) == IF a < b THEN a ELSE b
Idx(size, k) == size - k + 1
Used(n) == 2 * n
Init == /\ cell \in {[k \in 1..s |-> Empty] : s \in {CHOOSE x \in Sizes : \A y \in Sizes : x <= y}}
        /\ total = 0 /\ from = 0 /\ moved = 0 /\ reg = <<>> /\ acked = <<>> /\ pc = "idle" /\ batch = <<>> /\ w = 0
        /\ serial = 0 /\ crashes = 0 /\ up = TRUE

Start == /\ up /\ pc = "idle" /\ serial < MaxRecs
         /\ \E n \in 1..Min(MaxBatch, MaxRecs - serial) :
              /\ \E s \in Sizes : s >= Used(Len(reg) + n)
              /\ batch' = [k \in 1..n |-> serial + k] /\ serial' = serial + n
         /\ pc' = "trunc" /\ w' = 0 /\ UNCHANGED <<cell, total, from, moved, reg, acked, crashes, up>>
\* records that are not in the catalogue are dropped
Trunc == pc = "trunc" /\ total' = Len(reg) /\ pc' = "fit" /\ UNCHANGED <<cell, from, moved, reg, acked, batch, w, serial, crashes, up>>
Fit == /\ pc = "fit"
       /\ IF Used(total + Len(batch)) <= Size
          THEN pc' = "index" /\ UNCHANGED moved
          ELSE pc' = (IF total = 0 THEN "grow" ELSE "mark") /\ moved' = 0
       /\ UNCHANGED <<cell, total, from, reg, acked, batch, w, serial, crashes, up>>
Mark == pc = "mark" /\ from' = Size /\ pc' = "grow" /\ UNCHANGED <<cell, total, moved, reg, acked, batch, w, serial, crashes, up>>
Grow == /\ pc = "grow"
        /\ \E s \in Sizes : /\ s >= Used(total + Len(batch)) /\ s > Size
                            /\ cell' = [k \in 1..s |-> IF k <= Size THEN cell[k] ELSE Empty]
        /\ pc' = "move" /\ UNCHANGED <<total, from, moved, reg, acked, batch, w, serial, crashes, up>>
\* one piece of the index is copied, cell by cell (in any order: the process may die in the middle of a copy); then "moved" is set
Piece == IF from = 0 \/ moved >= total THEN 0 ELSE Min(Size - from, total - moved)
Src(k) == Idx(from, moved + k)
Dst(k) == Idx(Size, moved + k)
Moving(next) ==
  IF from # 0 /\ Piece > 0
  THEN \/ \E k \in 1..Piece : /\ cell[Dst(k)] # cell[Src(k)] /\ cell' = [cell EXCEPT ![Dst(k)] = cell[Src(k)]]
                              /\ UNCHANGED <<moved, from, pc>>
       \/ /\ \A k \in 1..Piece : cell[Dst(k)] = cell[Src(k)]
          /\ moved' = moved + Piece /\ UNCHANGED <<cell, from, pc>>
  ELSE from' = 0 /\ pc' = next /\ UNCHANGED <<cell, moved>>
Move == pc = "move" /\ Moving("index") /\ UNCHANGED <<total, reg, acked, batch, w, serial, crashes, up>>
\* index entries, then payloads
Index == /\ pc = "index"
         /\ cell' = [cell EXCEPT ![Idx(Size, total + w + 1)] = batch[w + 1]]
         /\ w' = (w + 1) % Len(batch) /\ pc' = (IF w' = 0 THEN "payload" ELSE pc)
         /\ UNCHANGED <<total, from, moved, reg, acked, batch, serial, crashes, up>>
Payload == /\ pc = "payload"
           /\ cell' = [cell EXCEPT ![total + w + 1] = batch[w + 1]]
           /\ w' = (w + 1) % Len(batch) /\ pc' = (IF w' = 0 THEN "header" ELSE pc)
           /\ UNCHANGED <<total, from, moved, reg, acked, batch, serial, crashes, up>>
Header == pc = "header" /\ total' = total + Len(batch) /\ pc' = "register" /\ UNCHANGED <<cell, from, moved, reg, acked, batch, w, serial, crashes, up>>
Register == pc = "register" /\ reg' = reg \o batch /\ pc' = "ack" /\ UNCHANGED <<cell, total, from, moved, acked, batch, w, serial, crashes, up>>
Ack == pc = "ack" /\ acked' = reg /\ pc' = "idle" /\ batch' = <<>> /\ UNCHANGED <<cell, total, from, moved, reg, w, serial, crashes, up>>

Crash == /\ crashes < MaxCrashes /\ crashes' = crashes + 1 /\ up' = FALSE
         /\ pc' = "open" /\ batch' = <<>> /\ w' = 0
         /\ UNCHANGED <<cell, total, from, moved, reg, acked, serial>>
Open == /\ pc = "open" /\ Moving("ready")
        /\ UNCHANGED <<total, reg, acked, batch, w, serial, crashes, up>>
Ready == pc = "ready" /\ pc' = "idle" /\ up' = TRUE /\ UNCHANGED <<cell, total, from, moved, reg, acked, batch, w, serial, crashes>>

Next == Start \/ Trunc \/ Fit \/ Mark \/ Grow \/ Move \/ Index \/ Payload \/ Header \/ Register \/ Ack \/ Crash \/ Open \/ Ready
Spec == Init /\ [][Next]_vars

\* what a reader of the log finds: the records of the catalogue, in the chunk
Readable == /\ total >= Len(reg)
            /\ \A k \in 1..Len(reg) : cell[k] = reg[k] /\ cell[Idx(Size, k)] = reg[k]
Reading == up /\ pc \in {"idle", "trunc", "fit", "register", "ack"}   \* the states in which the chunk's lock is free
Intact == Reading => Readable
Prefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Durable == Prefix(acked, reg)
\* records are registered all together or not at all, and stay
Monotone == [][Prefix(reg, reg')]_vars
Atomic == [][reg' # reg => reg' = reg \o batch]_vars
=============================================================================

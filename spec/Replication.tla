---------------------------- MODULE Replication ----------------------------
(* Design of the replication of one chunk (pkg/storage/chunkfs replicator.go, provider.go): the local file, the  *)
(* remote copy, the steps of upload / delete-after-upload / download with a failing object store and crashes.     *)
(* Exclusive access to the file during a replication operation is the business of Accessor.tla.                   *)
EXTENDS Integers, TLC

CONSTANTS MaxLen,    \* appends
          MaxFaults
None == -1
Bad == -2

VARIABLES local,    \* None | Bad | 0..MaxLen: the records of the local file
          remote,   \* the same for the remote copy
          acked,    \* records acknowledged
          temp,     \* None | Bad | 0..MaxLen: the temporary file of the running operation
          pc,       \* "idle" | "put" | "get" | "unzip" | "place" | "remove"
          mode,     \* "up" | "sdel" | "open"
          faults,
          served    \* what the last successful open served
vars == <<local, remote, acked, temp, pc, mode, faults, served>>

Init == /\ local = 0 /\ remote = None /\ acked = 0 /\ temp = None /\ pc = "idle" /\ mode = "" /\ faults = 0 /\ served = None

Fault == faults < MaxFaults /\ faults' = faults + 1
End == pc' = "idle" /\ mode' = "" /\ temp' = None

Append == /\ pc = "idle" /\ local # None /\ acked < MaxLen
          /\ local' = local + 1 /\ acked' = acked + 1 /\ UNCHANGED <<remote, temp, pc, mode, faults, served>>

\* upload, and delete with synchronisation: zip, put, [remove]
StartUp(m) == /\ pc = "idle" /\ local # None /\ mode' = m /\ temp' = local /\ pc' = "put"
              /\ UNCHANGED <<local, remote, acked, faults, served>>
\* a put that fails may have had no effect, the full effect (the answer was lost), or may have left a partial object
Put == /\ pc = "put"
       /\ \/ /\ remote' = temp /\ UNCHANGED faults
             /\ IF mode = "sdel" THEN pc' = "remove" /\ UNCHANGED <<mode, temp>> ELSE End
          \/ Fault /\ remote' \in {remote, temp, Bad} /\ End          \* the local file stays
       /\ UNCHANGED <<local, acked, served>>
Remove == pc = "remove" /\ local' = None /\ End /\ UNCHANGED <<remote, acked, faults, served>>

\* opening the chunk: the local file, or the remote copy if there is none
Open == /\ pc = "idle" /\ mode = ""
        /\ IF local # None THEN served' = local /\ UNCHANGED <<pc, mode>> ELSE pc' = "get" /\ mode' = "open" /\ UNCHANGED served
        /\ UNCHANGED <<local, remote, acked, temp, faults>>
Get == /\ pc = "get"
       /\ \/ temp' = remote /\ pc' = (IF remote = None THEN "idle" ELSE "unzip") /\ UNCHANGED faults
          \/ Fault /\ temp' = Bad /\ pc' \in {"idle", "unzip"}        \* fails, or is cut without an error
       /\ mode' = (IF pc' = "idle" THEN "" ELSE mode) /\ UNCHANGED <<local, remote, acked, served>>
Unzip == /\ pc = "unzip"
         /\ IF temp = Bad THEN End ELSE pc' = "place" /\ UNCHANGED <<mode, temp>>  \* the checksum tells
         /\ UNCHANGED <<local, remote, acked, faults, served>>
Place == /\ pc = "place" /\ local' = temp /\ served' = temp /\ End
         /\ UNCHANGED <<remote, acked, faults>>
Crash == pc # "idle" /\ Fault /\ End /\ UNCHANGED <<local, remote, acked, served>>

Next == Append \/ StartUp("up") \/ StartUp("sdel") \/ Put \/ Remove \/ Open \/ Get \/ Unzip \/ Place \/ Crash
Spec == Init /\ [][Next]_vars

NeverLost == local = acked \/ (local = None /\ remote = acked)
NeverPartial == local # Bad /\ served # Bad
ServedRight == [][served' # served => served' = acked]_vars
=============================================================================

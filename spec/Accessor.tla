------------------------------ MODULE Accessor ------------------------------
(* Design of pkg/storage/chunkfs/caccessor.go for one chunk file: threads open/close it, write it, delete it.  *)
(* Every action is one critical section; waiting is on a channel that is closed when the state changes.        *)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS Threads

VARIABLES rec,     \* the chunk has a record
          st,      \* "idle" | "writing" | "deleting"
          opened,  \* the flag of the record
          closed,  \* the accessor is shut down
          hold,    \* [Threads -> SUBSET {"O", "W", "D"}]
          wait,    \* [Threads -> "" | "O" | "W"]: what it waits for
          woken,   \* [Threads -> its channel is closed]
          gone     \* [Threads -> its context has ended]
vars == <<rec, st, opened, closed, hold, wait, woken, gone>>

Init == /\ rec = FALSE /\ st = "idle" /\ opened = FALSE /\ closed = FALSE
        /\ hold = [t \in Threads |-> {}] /\ wait = [t \in Threads |-> ""] /\ woken = [t \in Threads |-> FALSE]
        /\ gone = [t \in Threads |-> FALSE]

WakeAll(w) == [t \in Threads |-> w[t] \/ wait[t] # ""]
Others(t) == [woken EXCEPT ![t] = FALSE]

\* what closing of the flag does (closeChunk)
DoClose(w) == /\ opened' = FALSE
              /\ IF st = "idle" THEN rec' = FALSE /\ woken' = WakeAll(w) ELSE rec' = rec /\ woken' = w
              /\ st' = st

TryOpen(t) ==
  IF closed \/ (rec /\ (st = "deleting" \/ opened))        \* refused
  THEN wait' = [wait EXCEPT ![t] = ""] /\ UNCHANGED <<rec, st, opened, hold, woken>>
  ELSE /\ rec' = TRUE /\ opened' = TRUE /\ st' = IF rec THEN st ELSE "idle"
       /\ IF ~rec \/ st = "idle"
          THEN hold' = [hold EXCEPT ![t] = @ \cup {"O"}] /\ wait' = [wait EXCEPT ![t] = ""] /\ UNCHANGED woken
          ELSE wait' = [wait EXCEPT ![t] = "O"] /\ woken' = [woken EXCEPT ![t] = FALSE] /\ UNCHANGED hold

Open(t) == wait[t] = "" /\ "O" \notin hold[t] /\ TryOpen(t) /\ UNCHANGED <<closed, gone>>
\* a waiting opener that is woken (or gives up) takes its flag back first; the retry is a step of its own
OpenWoken(t) == /\ wait[t] = "O" /\ woken[t] /\ DoClose(Others(t)) /\ wait' = [wait EXCEPT ![t] = "O?"]
                /\ UNCHANGED <<closed, hold, gone>>
OpenRetry(t) == wait[t] = "O?" /\ TryOpen(t) /\ UNCHANGED <<closed, gone>>
OpenGiveUp(t) == /\ wait[t] = "O" /\ (gone[t] \/ closed) /\ DoClose(Others(t)) /\ wait' = [wait EXCEPT ![t] = ""]
                 /\ UNCHANGED <<closed, hold, gone>>
CloseIt(t) == /\ wait[t] = "" /\ "O" \in hold[t] /\ hold' = [hold EXCEPT ![t] = @ \ {"O"}]
              /\ DoClose(woken) /\ UNCHANGED <<closed, wait, gone>>

TryWrite(t) ==
  IF closed \/ (rec /\ st = "deleting") THEN wait' = [wait EXCEPT ![t] = ""] /\ UNCHANGED <<rec, st, hold, woken>>
  ELSE IF ~rec \/ st = "idle"
       THEN /\ rec' = TRUE /\ st' = "writing" /\ hold' = [hold EXCEPT ![t] = @ \cup {"W"}]
            /\ wait' = [wait EXCEPT ![t] = ""] /\ woken' = WakeAll(Others(t))
       ELSE wait' = [wait EXCEPT ![t] = "W"] /\ woken' = [woken EXCEPT ![t] = FALSE] /\ UNCHANGED <<rec, st, hold>>
Write(t) == wait[t] = "" /\ hold[t] \cap {"W", "D"} = {} /\ TryWrite(t) /\ UNCHANGED <<opened, closed, gone>>
WriteWoken(t) == wait[t] = "W" /\ woken[t] /\ TryWrite(t) /\ UNCHANGED <<opened, closed, gone>>
WriteGiveUp(t) == /\ wait[t] = "W" /\ (gone[t] \/ closed) /\ wait' = [wait EXCEPT ![t] = ""] /\ woken' = Others(t)
                  /\ UNCHANGED <<rec, st, opened, closed, hold, gone>>

Delete(t) == /\ wait[t] = "" /\ hold[t] = {} /\ ~closed /\ ~rec
             /\ rec' = TRUE /\ st' = "deleting" /\ opened' = FALSE /\ hold' = [hold EXCEPT ![t] = {"D"}]
             /\ UNCHANGED <<closed, wait, woken, gone>>

SetIdle(t) == /\ wait[t] = "" /\ hold[t] \cap {"W", "D"} # {}
              /\ hold' = [hold EXCEPT ![t] = @ \ {"W", "D"}] /\ st' = "idle" /\ woken' = WakeAll(woken)
              /\ rec' = opened /\ UNCHANGED <<opened, closed, wait, gone>>

Cancel(t) == ~gone[t] /\ gone' = [gone EXCEPT ![t] = TRUE] /\ UNCHANGED <<rec, st, opened, closed, hold, wait, woken>>
Shutdown == ~closed /\ closed' = TRUE /\ UNCHANGED <<rec, st, opened, hold, wait, woken, gone>>

Step(t) == Open(t) \/ OpenWoken(t) \/ OpenRetry(t) \/ OpenGiveUp(t) \/ CloseIt(t) \/ Write(t) \/ WriteWoken(t)
           \/ WriteGiveUp(t) \/ Delete(t) \/ SetIdle(t) \/ Cancel(t)
Next == Shutdown \/ \E t \in Threads : Step(t)
Fair == \A t \in Threads : /\ WF_vars(OpenWoken(t)) /\ WF_vars(OpenRetry(t)) /\ SF_vars(OpenGiveUp(t))
                           /\ WF_vars(WriteWoken(t)) /\ SF_vars(WriteGiveUp(t))
                           /\ WF_vars(SetIdle(t)) /\ WF_vars(CloseIt(t))
Spec == Init /\ [][Next]_vars /\ Fair

Has(x) == {t \in Threads : x \in hold[t]}
OneExclusive == Cardinality(Has("W") \cup Has("D")) <= 1 /\ (Has("D") # {} => Has("W") = {})
OneOpener == Cardinality(Has("O")) <= 1
NeverDeletedInUse == Has("D") # {} => Has("O") = {}
StateRight == /\ (Has("W") # {}) = (rec /\ st = "writing")
              /\ (Has("D") # {}) = (rec /\ st = "deleting")
              /\ Has("O") # {} => rec /\ opened
NoLostWakeup == \A t \in Threads : wait[t] \in {"O", "W"} /\ ~woken[t] => rec /\ st # "idle"
\* a waiting opener ends: once nobody holds exclusive access for ever
OpenServed == \A t \in Threads : (wait[t] = "O" /\ (gone[t] \/ closed)) ~> wait[t] = ""
WriteServed == \A t \in Threads : (wait[t] = "W" /\ (gone[t] \/ closed)) ~> wait[t] = ""
WokenMoves == \A t \in Threads : (wait[t] \in {"O", "W"} /\ woken[t]) ~> ~(wait[t] \in {"O", "W"} /\ woken[t])
NoNewAccess == [][closed => \A t \in Threads : hold'[t] \subseteq hold[t]]_vars
Sym == Permutations(Threads)
=============================================================================

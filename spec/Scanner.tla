------------------------------ MODULE Scanner ------------------------------
(* The background synchronisation of one folder of chunks, step by step: a scan lists the files with the times of their last  *)
(* changes, merges its notes, removes the oldest chunks if there is too much (each is copied first, nothing that is opened),  *)
(* copies the chunks that are idle and not known to be synchronised, and writes its notes. The users of the chunks go on at   *)
(* the same time (open, append, close, download), copies fail, the process stops or dies at any step.                         *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Chunks, MaxSize, MinSize, MaxVer, MaxFails, MaxStops, Threshold
VARIABLES
  here,      \* the chunks whose files are on the disk
  ver,       \* the version of the content of a chunk
  rem,       \* the version of the remote copy (0: none)
  mt,        \* the time of the last change (or of the download)
  known,     \* what the notes on the disk say: the time of the last copy, 0 if unknown
  open,      \* the chunks in use
  clock, pc, todo, now, sis, syn, fails, stops, stopped
vars == <<here, ver, rem, mt, known, open, clock, pc, todo, now, sis, syn, fails, stops, stopped>>
users == <<here, ver, mt, open>>
scan == <<pc, todo, now, sis, syn>>

TypeOK == here \subseteq Chunks /\ open \subseteq here /\ todo \subseteq Chunks /\ pc \in {"sleep", "sweep", "copy", "note", "down"}

Init == /\ here = Chunks /\ ver = [c \in Chunks |-> 1] /\ rem = [c \in Chunks |-> 0] /\ mt = [c \in Chunks |-> 1]
        /\ known = [c \in Chunks |-> 0] /\ open = {} /\ clock = 2 /\ pc = "sleep" /\ todo = {} /\ now = 0
        /\ sis = [c \in Chunks |-> 0] /\ syn = [c \in Chunks |-> 0] /\ fails = 0 /\ stops = 0 /\ stopped = FALSE

(* ---- the users of the chunks ---- *)
Open(c) ==     \* a chunk that is not here is downloaded, its sync time is noted (after the time of the file)
  /\ c \notin open
  /\ open' = open \cup {c} /\ here' = here \cup {c}
  /\ IF c \in here THEN UNCHANGED <<mt, known, clock>>
     ELSE /\ rem[c] > 0 /\ mt' = [mt EXCEPT ![c] = clock] /\ known' = [known EXCEPT ![c] = clock + 1] /\ clock' = clock + 2
  /\ UNCHANGED <<ver, rem, scan, fails, stops, stopped>>
Close(c) == c \in open /\ open' = open \ {c} /\ UNCHANGED <<here, ver, rem, mt, known, clock, scan, fails, stops, stopped>>
Append(c) ==
  /\ c \in open /\ ver[c] < MaxVer
  /\ ver' = [ver EXCEPT ![c] = @ + 1] /\ mt' = [mt EXCEPT ![c] = clock] /\ clock' = clock + 1
  /\ UNCHANGED <<here, rem, known, open, scan, fails, stops, stopped>>

(* ---- the scanner ---- *)
Sum(S) == Cardinality(S)      \* every chunk has the size 1
Begin ==
  /\ pc = "sleep" /\ ~stopped
  /\ sis' = [c \in Chunks |-> IF c \in here THEN mt[c] ELSE 0] /\ syn' = known
  /\ pc' = IF Sum(here) >= MaxSize THEN "sweep" ELSE "copy"
  /\ todo' = here /\ now' = clock /\ clock' = IF \A c \in Chunks : clock > mt[c] + Threshold + 1 THEN clock ELSE clock + 1
  /\ UNCHANGED <<here, ver, rem, mt, known, open, fails, stops, stopped>>
Listed == {c \in Chunks : sis[c] > 0}
Oldest(S) == {c \in S : \A d \in S : sis[c] <= sis[d]}
Put(c, ok) ==
  IF ok THEN rem' = [rem EXCEPT ![c] = ver[c]] /\ UNCHANGED fails
  ELSE fails < MaxFails /\ fails' = fails + 1 /\ UNCHANGED rem
\* a chunk that is in use stays; the others are copied and removed in one step (the users cannot get them meanwhile)
Sweep ==
  /\ pc = "sweep" /\ ~stopped
  /\ \E c \in Oldest(todo) :
       \/ /\ c \in open \/ c \notin here
          /\ todo' = todo \ {c} /\ UNCHANGED <<here, rem, sis, fails, clock>>
       \/ /\ c \notin open /\ c \in here
          /\ \E ok \in BOOLEAN : /\ Put(c, ok)
               /\ here' = (IF ok THEN here \ {c} ELSE here) /\ sis' = (IF ok THEN [sis EXCEPT ![c] = 0] ELSE sis)
          /\ todo' = todo \ {c} /\ UNCHANGED clock
  /\ LET left == {c \in Chunks : sis'[c] > 0} IN
       IF todo' = {} \/ Sum(left) < MinSize THEN pc' = "copy" ELSE pc' = "sweep"
  /\ UNCHANGED <<ver, mt, known, open, now, syn, stops, stopped>>
Needs(c) == now - sis[c] >= Threshold /\ ~(syn[c] > sis[c])
Copy ==
  /\ pc = "copy" /\ ~stopped
  /\ \E c \in Listed : /\ Needs(c)
       /\ sis' = [sis EXCEPT ![c] = clock + 100]   \* dealt with
       /\ IF c \in here THEN \E ok \in BOOLEAN : Put(c, ok) /\ syn' = (IF ok THEN [syn EXCEPT ![c] = now] ELSE syn)
          ELSE UNCHANGED <<rem, fails, syn>>
  /\ UNCHANGED <<here, ver, mt, known, open, clock, pc, todo, now, stops, stopped>>
Noted == pc = "copy" /\ (stopped \/ \A c \in Listed : ~Needs(c))
Note ==
  /\ Noted
  /\ known' = [c \in Chunks |-> IF syn[c] > known[c] THEN syn[c] ELSE known[c]]
  /\ pc' = "sleep" /\ todo' = {} /\ sis' = [c \in Chunks |-> 0] /\ syn' = [c \in Chunks |-> 0] /\ now' = 0
  /\ UNCHANGED <<here, ver, rem, mt, open, clock, fails, stops, stopped>>
(* ---- stops, starts, deaths ---- *)
Stop == ~stopped /\ stops < MaxStops /\ stopped' = TRUE /\ stops' = stops + 1 /\ UNCHANGED <<users, rem, known, clock, scan, fails>>
Quit == stopped /\ pc = "sweep" /\ pc' = "copy" /\ UNCHANGED <<users, rem, known, clock, todo, now, sis, syn, fails, stops, stopped>>
Start == stopped /\ pc = "sleep" /\ stopped' = FALSE /\ open' = {} /\ UNCHANGED <<here, ver, mt, rem, known, clock, scan, fails, stops>>
Die == /\ stops < MaxStops /\ stops' = stops + 1 /\ open' = {}
       /\ pc' = "sleep" /\ todo' = {} /\ sis' = [c \in Chunks |-> 0] /\ syn' = [c \in Chunks |-> 0] /\ now' = 0 /\ stopped' = FALSE
       /\ \E k \in {known, [c \in Chunks |-> 0]} : known' = k      \* the notes may be damaged
       /\ UNCHANGED <<here, ver, mt, rem, clock, fails>>
User == \E c \in Chunks : Open(c) \/ Close(c) \/ Append(c)
Next == User \/ Begin \/ Sweep \/ Copy \/ Note \/ Stop \/ Quit \/ Start \/ Die
Spec == Init /\ [][Next]_vars
Bound == clock <= 9

(* ---- what must hold ---- *)
NothingLost == \A c \in Chunks : c \in here \/ rem[c] = ver[c]
OpenStays == open \subseteq here
\* what is known to be synchronised and did not change is equal to the remote copy
KnownIsTrue == \A c \in here : known[c] > mt[c] => rem[c] = ver[c]
\* only what is needed is removed: the step that removes a chunk starts above the target, in a scan that began at the limit
OnlyWhatIsNeeded == [][\A c \in here \ here' : Sum(Listed) >= MinSize /\ pc = "sweep" /\ c \notin open]_vars
OldestFirst == [][\A c \in here \ here' : \A d \in Listed : sis[d] < sis[c] => d \in open \/ d \notin todo]_vars
\* with scans going on and copies that succeed in the end, everything that stays unchanged is copied, and a stop ends the scan
Fair == WF_vars(Begin) /\ WF_vars(Sweep) /\ WF_vars(Copy) /\ WF_vars(Note) /\ WF_vars(Quit) /\ WF_vars(Start)
Live == Init /\ [][Next]_vars /\ Fair
Stops == stopped ~> pc = "sleep"
Copied == <>[](\A c \in Chunks : rem[c] = ver[c])
=============================================================================

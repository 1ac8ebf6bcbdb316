------------------------------ MODULE MCConfig ------------------------------
(* How the configuration is built: the defaults, over them what the file gives, over it the variables one after the other in any   *)
(* order. Whatever the order, it ends as Config says.                                                                              *)
EXTENDS Config
Opts == {1, 3, 14}
Vals(o) == IF Kinds[o] = "str" THEN {<<>>, <<97>>} ELSE {<<0>>, <<7>>}
Some == UNION {[D -> {<<>>, <<97>>, <<0>>, <<7>>}] : D \in SUBSET Opts}
Layers == {f \in Some : \A o \in DOMAIN f : f[o] \in Vals(o)}
VARIABLES file, env, val, todo, phase
vars == <<file, env, val, todo, phase>>
Init == /\ file \in Layers /\ env \in {f \in Layers : \A o \in DOMAIN f : f[o] # <<>>}
        /\ val = Default /\ todo = DOMAIN file /\ phase = "file"
File(o) == phase = "file" /\ o \in todo /\ val' = [val EXCEPT ![o] = IF Given(o, file[o]) THEN file[o] ELSE @] /\ todo' = todo \ {o} /\ UNCHANGED <<file, env, phase>>
Switch == phase = "file" /\ todo = {} /\ phase' = "env" /\ todo' = DOMAIN env /\ UNCHANGED <<file, env, val>>
Env(o) == phase = "env" /\ o \in todo /\ val' = [val EXCEPT ![o] = env[o]] /\ todo' = todo \ {o} /\ UNCHANGED <<file, env, phase>>
End == phase = "env" /\ todo = {} /\ phase' = "done" /\ UNCHANGED <<file, env, val, todo>>
Next == Switch \/ End \/ (\E o \in Opts : File(o) \/ Env(o)) \/ (phase = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Switch \/ End \/ \E o \in Opts : File(o) \/ Env(o))
Right == phase = "done" => \A o \in 1..N : val[o] = Layer(file, env, o)
Untouched == \A o \in 1..N : o \notin DOMAIN file \cup DOMAIN env => val[o] = Default[o]
Ends == <>(phase = "done")
=============================================================================

------------------------------- MODULE Config -------------------------------
(* The configuration of the server: every option has the value of its environment variable, else of the file, else its default.  *)
(* Values are sequences of numbers: code points of a text, or <<n>> for a number. An option that the file gives as empty text or  *)
(* (a plain number) as 0 is not given; an optional number may be given as 0. An empty variable is none.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
N == 16
Kinds == <<"str", "str", "int", "int", "str", "int", "str", "str", "str", "str", "str", "str", "str", "pint", "pint", "pint">>
Group(o) == IF o <= 3 THEN 1 ELSE IF o >= 7 THEN 2 ELSE 0
\* GrpcTransport.{Network, Address, Port}, HttpPort, LocalDBFilePath, MaxOpenedLogFiles, DB.{Driver, Host, Port, Username, Password, DBName, SSLMode,
\* MaxConnections, MaxIdleConnections, MaxConnIdleTimeSec}
Default == << <<116, 99, 112>>, <<>>, <<50051>>, <<8080>>, <<115, 108, 111, 103, 115>>, <<100>>,
              <<112, 111, 115, 116, 103, 114, 101, 115>>, <<108, 111, 99, 97, 108, 104, 111, 115, 116>>, <<53, 52, 51, 50>>, <<112, 111, 115, 116, 103, 114, 101, 115>>,
              <<112, 111, 115, 116, 103, 114, 101, 115>>, <<115, 111, 108, 97, 114, 105, 115>>, <<100, 105, 115, 97, 98, 108, 101>>, <<64>>, <<64>>, <<30>> >>
Given(o, v) == CASE Kinds[o] = "str" -> v # <<>> [] Kinds[o] = "int" -> v # <<0>> [] OTHER -> TRUE
\* file, env: functions from some of the options to values
Layer(file, env, o) == IF o \in DOMAIN env THEN env[o] ELSE IF o \in DOMAIN file /\ Given(o, file[o]) THEN file[o] ELSE Default[o]
Config(file, env) == [o \in 1..N |-> Layer(file, env, o)]
=============================================================================

----------------------------- MODULE GenConnector -----------------------------
(***************************************************************************)
(* The scenarios for the storage connectors: every variant of the settings *)
(* against every variant of the backend, and every short sequence of       *)
(* verdicts.                                                               *)
(***************************************************************************)
EXTENDS ConnectorSettings, Json, IOUtils

MaxScript == IF IOEnv.GEN_TIER = "thorough" THEN 3 ELSE 2

Case(kind, s, b, script) == [kind |-> kind, settings |-> s, backend |-> Fix(b), script |-> script, ok |-> InitOk(kind, s, Fix(b))]

Inits ==
  UNION { UNION { {Case(kind, s, Right(kind, pw), <<>>) : s \in Settings(kind, pw)}
             \cup {Case(kind, Base(kind, pw), b, <<>>) : b \in Backends(kind, pw)}
             \cup (IF pw = "secret"
                   THEN {Case(kind, s, b, <<>>) : s \in Settings(kind, pw), b \in {x \in Backends(kind, pw) : x.places # <<>> \/ ~x.up}} ELSE {})
          : pw \in IF IOEnv.GEN_TIER = "thorough" THEN {p \in Passwords : Usable(kind, p)} ELSE {"secret"} } : kind \in Kinds }
  \cup {Case(kind, Base(kind, pw), Right(kind, pw), <<>>) : kind \in Kinds \ {"mysql"}, pw \in Passwords}
  \cup {Case("mysql", Base("mysql", pw), Right("mysql", pw), <<>>) : pw \in {p \in Passwords : Usable("mysql", p)}}

Vs == {"ok", "refuse", "before", "after", "slow", "slowrefuse", "stall", "fatal"}
Scripts == UNION {{q \in [1..n -> Vs] : TRUE} : n \in 0..MaxScript}
Runs == {Case(kind, Base(kind, "secret"), Right(kind, "secret"), q) : kind \in Kinds, q \in Scripts}

ASSUME ndJsonSerialize(IOEnv.GEN_OUT, SetToSeq(Inits \cup Runs))

VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================

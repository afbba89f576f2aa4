------------------------------- MODULE GenEndToEnd ------------------------------
(***************************************************************************)
(* Runs of generators against a receiver: the storages, what each answers  *)
(* to which message, how many generators, which of them ask for something  *)
(* that cannot be sent, one after the other or all at once, and whether    *)
(* the receiver is killed after so many messages and started again.        *)
(* same: all for one client under one packet number, some of them equal.   *)
(***************************************************************************)
EXTENDS ConnectorSettings, Json, IOUtils

Thorough == IOEnv.GEN_TIER = "thorough"

Storage(kind) == [name |-> kind, settings |-> Base(kind, "secret"), backend |-> [Right(kind, "secret") EXCEPT !.addresses = SetToSeq(@)]]

Run(kinds, scripts, n) ==
  [stores |-> [i \in 1..Len(kinds) |-> Storage(kinds[i])], scripts |-> scripts, gens |-> n, bad |-> {}, par |-> FALSE, kill |-> 0, again |-> 0,
   same |-> FALSE, timeout |-> 20, noise |-> FALSE, host |-> "specific"]

Ok4 == <<"ok", "ok", "ok", "ok">>
At(i, v) == [Ok4 EXCEPT ![i] = v]

One == {Ok4, At(1, "refuse"), At(2, "refuse"), At(4, "refuse"), <<"refuse", "refuse", "refuse", "refuse">>, <<"slow", "ok", "slowrefuse", "ok">>,
        At(2, "before"), At(2, "after"), <<"before", "refuse", "ok", "ok">>, <<"ok", "refuse", "after", "refuse">>}
       \cup (IF Thorough THEN [1..4 -> {"ok", "refuse", "before", "after"}] ELSE {})
Two == {<<At(1, "refuse"), Ok4>>, <<At(2, "refuse"), At(3, "refuse")>>, <<At(3, "slowrefuse"), At(1, "late")>>, <<At(2, "before"), At(3, "refuse")>>}
       \cup (IF Thorough THEN {<<At(i, v), At(j, w)>> : i \in 1..4, j \in 1..4, v \in {"refuse", "slow", "before", "after"}, w \in {"refuse", "slow"}} ELSE {})

Few == IF Thorough THEN {2, 8, 16, 40} ELSE {8}
Mixed(n, k) == [i \in 1..n |-> CASE i % k = 2 -> "refuse" [] i % k = 3 -> "slow" [] OTHER -> "ok"]
Pairs == {<<k, j>> : k \in Kinds, j \in Kinds} \ {<<k, k>> : k \in Kinds}
Sets == {<<k>> : k \in Kinds} \cup {SetToSeq(Kinds)} \cup {<<"redis", "postgresql">>, <<"nats", "tarantool_queue">>, <<"rabbitmq", "mysql">>}

Cases ==
  {Run(<<k>>, <<v>>, 4) : k \in Kinds, v \in One}
  \cup {Run(<<>>, <<>>, 4), [Run(<<>>, <<>>, 8) EXCEPT !.par = TRUE, !.bad = {2}, !.noise = TRUE]}
  \cup {[Run(<<k>>, <<v>>, 4) EXCEPT !.same = TRUE] : k \in Kinds, v \in {Ok4, At(2, "refuse")}}
  \cup {[Run(<<>>, <<>>, 4) EXCEPT !.same = TRUE]}
  \cup {[Run(<<k>>, <<v>>, 4) EXCEPT !.timeout = 1, !.par = b] : k \in Kinds, b \in BOOLEAN, v \in {At(1, "late"), <<"ok", "late", "ok", "late">>}}
  \cup {Run(p, v, 4) : p \in Pairs, v \in Two}
  \cup {[Run(<<k>>, <<Ok4>>, 4) EXCEPT !.bad = b, !.host = h] : k \in {"redis", "mysql"}, b \in {{1}, {2, 3}, {1, 2, 3, 4}}, h \in {"localhost", "any", "empty"}}
  \cup {[Run(q, [i \in 1..Len(q) |-> Mixed(n, m + i)], n) EXCEPT !.par = TRUE, !.bad = b, !.noise = TRUE] : q \in Sets, n \in Few, m \in {3, 4}, b \in {{}, {2, 5}}}
  \cup {[Run(q, [i \in 1..Len(q) |-> [x \in 1..n |-> IF (x + i) % 2 = 0 THEN "slow" ELSE "ok"]], n) EXCEPT !.par = p, !.kill = k, !.again = 3, !.noise = TRUE]
            : q \in Sets, n \in Few, p \in BOOLEAN, k \in {1, 3}}

ASSUME ndJsonSerialize(IOEnv.GEN_OUT, SetToSeq(Cases))

VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================

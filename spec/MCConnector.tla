------------------------------ MODULE MCConnector ------------------------------
(***************************************************************************)
(* A connector with several saves at once: the driver hands messages over  *)
(* a connection that may break, waits for the answer and tries again after *)
(* a break (at most Tries times).  The promises follow from the rules of   *)
(* Connector.                                                              *)
(***************************************************************************)
EXTENDS Connector

CONSTANTS Saves, Tries, Verdicts, MaxBreaks

VARIABLES sv,    \* the saves
          ans,   \* answers on their way back: save -> "none", "yes", "no", "lost"
          tries, \* times handed over
          up,    \* the connection has never broken
          breaks
vars == <<sv, ans, tries, up, breaks>>

Init == /\ sv = [s \in Saves |-> Idle] /\ ans = [s \in Saves |-> "none"] /\ tries = [s \in Saves |-> 0]
        /\ up = TRUE /\ breaks = 0

Call(s) == sv[s].st = "no" /\ sv' = [sv EXCEPT ![s] = Begin(@)] /\ UNCHANGED <<ans, tries, up, breaks>>

Hand(s) == \E v \in Verdicts :
  /\ ans[s] \in {"none", "lost"} /\ tries[s] < Tries /\ MayHand(sv[s])
  /\ Broken(v) => breaks < MaxBreaks
  /\ sv' = [sv EXCEPT ![s] = Handed(@, v)]
  /\ ans' = [ans EXCEPT ![s] = IF Broken(v) THEN "lost" ELSE IF Taken(v) THEN "yes" ELSE "no"]
  /\ tries' = [tries EXCEPT ![s] = @ + 1]
  /\ up' = (up /\ ~Broken(v)) /\ breaks' = breaks + (IF Broken(v) THEN 1 ELSE 0)

(* the connection breaks under everybody who waits *)
Break == /\ breaks < MaxBreaks /\ breaks' = breaks + 1 /\ up' = FALSE
         /\ \E w \in SUBSET {s \in Saves : sv[s].st = "run"} :
              /\ sv' = [s \in Saves |-> IF s \in w THEN [sv[s] EXCEPT !.broke = TRUE] ELSE sv[s]]
              /\ ans' = [s \in Saves |-> IF s \in w THEN "lost" ELSE ans[s]]
         /\ UNCHANGED tries

Succeed(s) == /\ ans[s] = "yes" /\ sv[s].st = "run" /\ MaySucceed(sv[s])
              /\ sv' = [sv EXCEPT ![s] = Returned(@, TRUE)] /\ UNCHANGED <<ans, tries, up, breaks>>
Fail(s) == /\ ans[s] \in {"no", "lost"} \/ (ans[s] = "none" /\ ~up)
           /\ MayFail(sv[s], up)
           /\ sv' = [sv EXCEPT ![s] = Returned(@, FALSE)] /\ UNCHANGED <<ans, tries, up, breaks>>

Next == \/ \E s \in Saves : Call(s) \/ Hand(s) \/ Succeed(s) \/ Fail(s)
        \/ Break

Spec == Init /\ [][Next]_vars /\ \A s \in Saves : WF_vars(Call(s) \/ Hand(s)) /\ WF_vars(Succeed(s) \/ Fail(s))

-------------------------------------------------------------------------------
(* a success is a delivery, and exactly one unless the connection broke under the save *)
Truth == \A s \in Saves :
  /\ sv[s].st = "ok" => sv[s].got >= 1
  /\ ~sv[s].broke => sv[s].got + sv[s].refused <= 1
  /\ sv[s].st = "ok" /\ ~sv[s].broke => sv[s].got = 1 /\ sv[s].refused = 0
(* what was refused, and never taken, is reported *)
Reported == \A s \in Saves : sv[s].refused > 0 /\ sv[s].got = 0 => sv[s].st # "ok"
(* a healthy connection that takes everything never fails *)
Healthy == \A s \in Saves : up /\ sv[s].refused = 0 => sv[s].st # "err"
(* every save comes to an end *)
Ends == \A s \in Saves : (sv[s].st = "run") ~> (sv[s].st \in {"ok", "err"})
=============================================================================

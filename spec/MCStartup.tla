------------------------------- MODULE MCStartup -------------------------------
(***************************************************************************)
(* Every configuration of a few storages; then records arrive, and some    *)
(* sinks refuse them.                                                      *)
(***************************************************************************)
EXTENDS Startup, TLC

CONSTANTS Names, Records
VARIABLES phase, file, stores, busy, todo, sinks, given, took, status
vars == <<phase, file, stores, busy, todo, sinks, given, took, status>>
Rest == <<file, stores, busy>>

Init == /\ phase = "boot" /\ file \in {"none", "missing", "unreadable", "malformed", "fine"}
        /\ \E s \in SUBSET Names : stores \in [s -> {"ok", "fails", "unknown"}]
        /\ busy \in BOOLEAN /\ todo = {} /\ sinks = {} /\ given = {} /\ took = {} /\ status = <<>>

Read == /\ phase = "boot"
        /\ IF Reads(file) THEN phase' = "load" /\ todo' = DOMAIN stores ELSE phase' = "failed" /\ UNCHANGED todo
        /\ UNCHANGED <<sinks, given, took, status>> /\ UNCHANGED Rest

Load == /\ phase = "load"
        /\ IF stores = <<>> THEN phase' = "fallback" /\ UNCHANGED <<todo, sinks>>
           ELSE IF todo = {} THEN phase' = "listen" /\ UNCHANGED <<todo, sinks>>
           ELSE \E n \in todo :
                  IF stores[n] = "ok" THEN todo' = todo \ {n} /\ sinks' = sinks \cup {n} /\ UNCHANGED phase
                  ELSE phase' = "fallback" /\ UNCHANGED <<todo, sinks>>
        /\ UNCHANGED <<given, took, status>> /\ UNCHANGED Rest

Fallback == phase = "fallback" /\ sinks' = sinks \cup {TheLog} /\ phase' = "listen" /\ UNCHANGED <<todo, given, took, status>> /\ UNCHANGED Rest

Listen == phase = "listen" /\ phase' = (IF busy THEN "failed" ELSE "run") /\ UNCHANGED <<todo, sinks, given, took, status>> /\ UNCHANGED Rest

(* one record at a time: every sink is handed it and takes it or not; then it is confirmed or not *)
Record == /\ phase = "run" /\ \E r \in Records \ given, w \in SUBSET sinks :
               /\ TheLog \in sinks => TheLog \in w
               /\ given' = given \cup {r} /\ took' = took \cup {<<r, s>> : s \in w}
               /\ status' = status @@ (r :> (w = sinks))
          /\ UNCHANGED <<phase, todo, sinks>> /\ UNCHANGED Rest

Next == Read \/ Load \/ Fallback \/ Listen \/ Record
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-------------------------------------------------------------------------------
Runs == phase = "run" => file = "fine" /\ ~busy /\ sinks \in SinkSets(stores)
(* all storages that are named get the records, or the log does *)
Somewhere == phase = "run" => sinks # {} /\ (DOMAIN stores \subseteq sinks \/ TheLog \in sinks)
Named == sinks \subseteq DOMAIN stores \cup {TheLog} /\ \A n \in sinks \ {TheLog} : stores[n] = "ok"
NothingLost == \A r \in DOMAIN status : status[r] => \A s \in sinks : <<r, s>> \in took
Decides == <>(phase \in {"run", "failed"})
=============================================================================

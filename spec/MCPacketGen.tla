----------------------------- MODULE MCPacketGen ------------------------------
(***************************************************************************)
(* The generator and a server that answers in segments, with any kind of   *)
(* answer, closes, or stays silent, while the time runs out.               *)
(***************************************************************************)
EXTENDS PacketGen

CONSTANT Segments
VARIABLES pc, fits, kind, given, shut, late, packets, intime
vars == <<pc, fits, kind, given, shut, late, packets, intime>>

(* the answer so far: the last segment makes the packet whole; a foreign one is bad from the start *)
SoFar(k, n) == IF n = Segments THEN k ELSE IF k = "foreign" /\ n > 0 THEN "bad" ELSE "more"
A(k, n) == LET x == SoFar(k, n) IN IF x = "foreign" THEN "bad" ELSE x

Init == /\ pc = "start" /\ fits \in BOOLEAN /\ kind \in {"good", "bad", "open", "foreign"}
        /\ given = 0 /\ shut = FALSE /\ late = FALSE /\ packets = 0 /\ intime = 0

Refuse == pc = "start" /\ ~fits /\ pc' = "failed" /\ UNCHANGED <<fits, kind, given, shut, late, packets, intime>>
NoServer == pc = "start" /\ pc' = "failed" /\ UNCHANGED <<fits, kind, given, shut, late, packets, intime>>
Send == pc = "start" /\ fits /\ pc' = "wait" /\ packets' = packets + 1 /\ UNCHANGED <<fits, kind, given, shut, late, intime>>
(* only what arrives in time is read *)
Answer == /\ pc # "start" /\ ~shut /\ given < Segments /\ packets = 1
          /\ given' = given + 1 /\ intime' = IF late THEN intime ELSE given + 1
          /\ UNCHANGED <<pc, fits, kind, shut, late, packets>>
Shut == pc # "start" /\ ~shut /\ shut' = TRUE /\ UNCHANGED <<pc, fits, kind, given, late, packets, intime>>
Expire == pc # "start" /\ ~late /\ late' = TRUE /\ UNCHANGED <<pc, fits, kind, given, shut, packets, intime>>
GoodEnd == pc = "wait" /\ MaySucceed(A(kind, intime)) /\ pc' = "ok" /\ UNCHANGED <<fits, kind, given, shut, late, packets, intime>>
BadEnd == pc = "wait" /\ MayFail(A(kind, intime), shut, late) /\ pc' = "failed" /\ UNCHANGED <<fits, kind, given, shut, late, packets, intime>>

Next == Refuse \/ NoServer \/ Send \/ Answer \/ Shut \/ Expire \/ GoodEnd \/ BadEnd
Spec == Init /\ [][Next]_vars /\ WF_vars(Refuse \/ NoServer \/ Send) /\ WF_vars(Expire) /\ WF_vars(GoodEnd \/ BadEnd)

(* success only after a whole answer that confirms, in time *)
Truth == pc = "ok" => fits /\ packets = 1 /\ kind \in {"good", "open"} /\ intime = Segments
(* failure never after a confirmation that arrived in time before it *)
NoDenial == [][pc = "wait" /\ pc' = "failed" => ~(kind = "good" /\ intime = Segments)]_vars
(* it does not give up while a confirmation may still come *)
Patient == [][pc = "wait" /\ pc' = "failed" => shut \/ late \/ A(kind, intime) # "more"]_vars
OnePacket == packets <= 1 /\ (~fits => packets = 0)
Ends == <>(pc \in {"ok", "failed"})
=============================================================================

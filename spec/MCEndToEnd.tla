------------------------------ MODULE MCEndToEnd ------------------------------
(***************************************************************************)
(* The specifications of the parts put together: the generator's packet is *)
(* encoded by Wire, understood by Meaning, served by Receiver, its answer  *)
(* encoded by Wire again and judged by PacketGen.  Storages may refuse     *)
(* anything, generators run out of time, the receiver may be killed.       *)
(***************************************************************************)
EXTENDS EndToEnd, Meaning, Receiver

CONSTANTS Gens, MaxFails, CanDie

Base == [pid |-> 4660, oid |-> <<22136, 4660>>, ntm |-> <<30000, 5000>>, lat |-> <<23456, 41000>>, laneg |-> FALSE,
         lon |-> <<34567, 22000>>, loneg |-> TRUE, liq |-> <<1, 1>>]
Requests == [g \in Gens |-> CASE g % 3 = 1 -> Base
                              [] g % 3 = 2 -> [Base EXCEPT !.pid = 65535, !.laneg = TRUE, !.liq = <<0, 0>>, !.lat = <<65535, 65535>>]
                              [] OTHER -> [Base EXCEPT !.pid = 1, !.oid = <<1, 0>>, !.lat = <<0, 0>>, !.ntm = <<0, 0>>]]
Fitting(g) == g % 4 # 0

Position(r) == [k |-> "pos", NTM |-> r.ntm, LAT |-> r.lat, LONG |-> r.lon, ALTE |-> "1", LOHS |-> IF r.loneg THEN "1" ELSE "0",
                LAHS |-> IF r.laneg THEN "1" ELSE "0", MV |-> "1", BB |-> "1", CS |-> "0", FIX |-> "1", VLD |-> "1",
                DIRH |-> 0, ALTS |-> 0, SPD |-> 34, DIR |-> 172, ODM |-> <<191, 0>>, DIN |-> 144, SRC |-> 0, ALT |-> <<30, 0>>]
Level(r) == [k |-> "liq", LLSEF |-> "1", LLSVU |-> "00", RDF |-> "0", LLSN |-> 1, MADDR |-> 1, LLSD |-> r.liq]
Head0(pid, pt) == [PRV |-> 1, SKID |-> 0, PRF |-> "00", RTE |-> "0", ENA |-> "00", CMP |-> "0", PR |-> "10", HL |-> 11, HE |-> 0, FDL |-> 0,
                   PID |-> pid, PT |-> pt, PRA |-> 0, RCA |-> 0, TTL |-> 0, nobody |-> FALSE, SFRCS |-> 0]
RecordWith(rn, obj, svc, subs) ==
  [RL |-> 0, RN |-> rn, SSOD |-> "0", RSOD |-> "0", GRP |-> "0", RPP |-> "10", TMFE |-> "0", EVFE |-> "0", OBFE |-> IF obj = <<>> THEN "0" ELSE "1",
   OID |-> IF obj = <<>> THEN <<0, 0>> ELSE obj[1], EVID |-> <<0, 0>>, TM |-> <<0, 0>>, SST |-> svc, RST |-> svc, subs |-> subs]
Sub1(t, v) == [SRT |-> t, SRL |-> 0, v |-> v]

Packet(r) == EncPkg(Head0(r.pid, 1) @@ [body |-> [recs |-> << RecordWith(1, <<r.oid>>, 2, << Sub1(16, Position(r)), Sub1(27, Level(r)) >>) >>]], NoKey).v
Sent == [g \in Gens |-> Packet(Requests[g])]
Plans == [g \in Gens |-> PlanOfStream(Sent[g])]

(* what the specifications of the parts say about one another *)
ASSUME \A g \in Gens : Carries(Requests[g], Sent[g])
ASSUME \A g \in Gens : /\ Len(Plans[g]) = 1 /\ Plans[g][1].m.k = "data"
                       /\ Len(Plans[g][1].m.recs) = 1 /\ Len(Plans[g][1].m.recs[1].pos) = 1

(* the record a storage is handed, as it would be seen there *)
Seen(d) == [cl |-> d.cl, pid |-> d.rec.num24, ntm |-> d.rec.ntm, lat |-> d.rec.lat, laneg |-> d.rec.laneg, lon |-> d.rec.lon, loneg |-> d.rec.loneg,
            liq |-> d.rec.liq]

(* an acknowledgement on the wire *)
AckBytes(a) ==
  LET res == CHOOSE c \in a.codes : TRUE
      recs == IF a.confs = <<>> THEN <<>>
              ELSE << RecordWith(1, <<>>, CHOOSE x \in a.svcs : TRUE, [i \in 1..Len(a.confs) |-> Sub1(0, [k |-> "resp", CRN |-> a.confs[i].crn, RST |-> a.confs[i].st])]) >>
  IN EncPkg(Head0((a.pid + 1) % 65536, 0) @@ [body |-> [RPID |-> a.pid, RES |-> res, sdr |-> recs # <<>>, recs |-> recs]], NoKey).v

-------------------------------------------------------------------------------
VARIABLES pc, conn, got, answer, late, alive, fails, odd
vars == <<pc, conn, got, answer, late, alive, fails, odd>>

Init == /\ pc = [g \in Gens |-> "idle"]
        /\ conn = [g \in Gens |-> Fresh(0)]
        /\ got = [g \in Gens |-> [s \in Stores |-> Unheard]]
        /\ answer = [g \in Gens |-> <<>>]
        /\ late = [g \in Gens |-> FALSE]
        /\ alive = TRUE /\ fails = 0 /\ odd = FALSE

Code(g, c) == pc' = [pc EXCEPT ![g] = IF c = 0 THEN "ok" ELSE "failed"]
K(g, k) == conn' = [conn EXCEPT ![g] = k]

Refuse(g) == pc[g] = "idle" /\ ~Fitting(g) /\ Code(g, 1) /\ UNCHANGED <<conn, got, answer, late, alive, fails, odd>>
Begin(g) == /\ pc[g] = "idle" /\ Fitting(g) /\ alive /\ pc' = [pc EXCEPT ![g] = "wait"] /\ K(g, Sending(conn[g], Len(Sent[g]), 0))
            /\ UNCHANGED <<got, answer, late, alive, fails, odd>>
NoServer(g) == pc[g] = "idle" /\ Fitting(g) /\ ~alive /\ Code(g, 1) /\ UNCHANGED <<conn, got, answer, late, alive, fails, odd>>

Take(g) == alive /\ CanTake(conn[g], Plans[g]) /\ K(g, Taken(conn[g], Plans[g])) /\ UNCHANGED <<pc, got, answer, late, alive, fails, odd>>
(* a storage is handed the report of some request: the one it is of, or none *)
Start(g, s) ==
  /\ alive /\ CanStart(conn[g], s) /\ K(g, Started(conn[g], s))
  /\ odd' = (odd \/ ~\E h \in Gens : pc[h] # "idle" /\ Fitting(h) /\ Wanted(Requests[h], Seen(Head(conn[g].todo))) /\ h = g)
  /\ UNCHANGED <<pc, got, answer, late, alive, fails>>
Finish(g, s) ==
  /\ alive /\ CanFinish(conn[g], s)
  /\ \E ok \in IF fails < MaxFails THEN BOOLEAN ELSE {TRUE} :
       /\ K(g, Finished(conn[g], s, ok)) /\ fails' = IF ok THEN fails ELSE fails + 1
       /\ odd' = (odd \/ ~MayHandOver(got[g][s]))
       /\ got' = [got EXCEPT ![g][s] = Handed(@, IF ok THEN "ok" ELSE "refuse")]
  /\ UNCHANGED <<pc, answer, late, alive>>
Done(g) == alive /\ CanStored(conn[g]) /\ K(g, Stored(conn[g])) /\ UNCHANGED <<pc, got, answer, late, alive, fails, odd>>
Reply(g) == alive /\ CanAnswer(conn[g]) /\ K(g, Answered(conn[g])) /\ UNCHANGED <<pc, got, answer, late, alive, fails, odd>>
Deliver(g) == /\ CanRead(conn[g]) /\ ~late[g] /\ K(g, Read(conn[g])) /\ answer' = [answer EXCEPT ![g] = @ \o AckBytes(Head(conn[g].out))]
              /\ UNCHANGED <<pc, got, late, alive, fails, odd>>
Expire(g) == pc[g] = "wait" /\ ~late[g] /\ late' = [late EXCEPT ![g] = TRUE] /\ UNCHANGED <<pc, conn, got, answer, alive, fails, odd>>
Die == CanDie /\ alive /\ alive' = FALSE /\ UNCHANGED <<pc, conn, got, answer, late, fails, odd>>

A(g) == AnswerTo(answer[g], Requests[g].pid, RecordNumber(Sent[g]))
EndWell(g) == pc[g] = "wait" /\ MaySucceed(A(g)) /\ Code(g, 0) /\ UNCHANGED <<conn, got, answer, late, alive, fails, odd>>
EndBadly(g) == pc[g] = "wait" /\ MayFail(A(g), ~alive /\ conn[g].out = <<>>, late[g]) /\ Code(g, 1) /\ UNCHANGED <<conn, got, answer, late, alive, fails, odd>>

Next == \E g \in Gens : \/ Refuse(g) \/ Begin(g) \/ NoServer(g) \/ Take(g) \/ Done(g) \/ Reply(g) \/ Deliver(g) \/ Expire(g) \/ EndWell(g) \/ EndBadly(g)
                        \/ \E s \in Stores : Start(g, s) \/ Finish(g, s)
                        \/ Die
(* Every step uses something up, so each behaviour comes to a standstill; where it may: every generator has ended, and what was *)
(* taken in is stored even if its generator gave up.  Anything else is a deadlock for TLC.                                      *)
Over == /\ \A g \in Gens : pc[g] \in {"ok", "failed"}
        /\ alive => \A g \in Gens : conn[g].sent > 0 => \A s \in Stores : got[g][s] # <<>>
        /\ UNCHANGED vars
Spec == Init /\ [][Next \/ Over]_vars

-------------------------------------------------------------------------------
(* a generator that ended may end so *)
Truth == \A g \in Gens : /\ pc[g] = "ok" => EndFault(Fitting(g), got[g], {}, {}, 0, FALSE) = ""
                         /\ pc[g] = "failed" => EndFault(Fitting(g), got[g], {}, {}, 1, late[g] \/ ~alive) = ""
(* storages have nothing but what was asked for, each once *)
Nothing == ~odd /\ \A g \in Gens : (~Fitting(g) \/ pc[g] = "idle") => \A s \in Stores : got[g][s] = <<>>
(* violated when TLC is asked: success is reached *)
SomeOk == \A g \in Gens : pc[g] # "ok"
=============================================================================

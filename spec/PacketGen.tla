------------------------------- MODULE PacketGen -------------------------------
(***************************************************************************)
(* The packet generator: it refuses a request that its packet cannot       *)
(* carry, or sends one packet, reads one packet, and reports success if    *)
(* and only if that packet, whole and in time, confirms the request.       *)
(***************************************************************************)
EXTENDS Wire, Plus

NoKey == [k |-> "none"]

-------------------------------------------------------------------------------
(***************************************************************************)
(* A request r: fits (all texts denote values the fields can carry), pid,  *)
(* oid, ntm, lat, laneg, lon, loneg, liq in units of the wire.             *)
(***************************************************************************)
Near(a, b) == a = b \/ (a # <<0, 0>> /\ Dec32(a) = b) \/ (b # <<0, 0>> /\ Dec32(b) = a)
(* a coordinate of less than one unit may be on either side *)
Tiny(u) == u \in {<<0, 0>>, <<1, 0>>}

Carried(recs, kind) ==
  FoldLeft(LAMBDA acc, r : acc \o SelectSeq(r.subs, LAMBDA s : s.v.k = kind), <<>>, recs)

Carries(r, b) ==
  LET d == DecPkg(b, NoKey) IN
  /\ d.ok
  /\ Frame(b).k = "packet" /\ Frame(b).n = Len(b)
  /\ d.v.PRV = 1 /\ d.v.PT = 1 /\ d.v.ENA = "00" /\ d.v.PID = r.pid
  /\ Len(d.v.body.recs) = 1
  /\ d.v.body.recs[1].OBFE = "1" /\ d.v.body.recs[1].OID = r.oid
  /\ LET pos == Carried(d.v.body.recs, "pos")  liq == Carried(d.v.body.recs, "liq") IN
     /\ Len(pos) = 1 /\ Len(liq) = 1
     /\ pos[1].v.NTM = r.ntm
     /\ Near(pos[1].v.LAT, r.lat) /\ (Tiny(r.lat) \/ pos[1].v.LAHS = (IF r.laneg THEN "1" ELSE "0"))
     /\ Near(pos[1].v.LONG, r.lon) /\ (Tiny(r.lon) \/ pos[1].v.LOHS = (IF r.loneg THEN "1" ELSE "0"))
     /\ pos[1].v.VLD = "1"
     /\ liq[1].v.LLSN = 1 /\ liq[1].v.RDF = "0" /\ liq[1].v.LLSVU \in {"00", "01"} /\ liq[1].v.LLSD = r.liq

RecordNumber(b) == DecPkg(b, NoKey).v.body.recs[1].RN

-------------------------------------------------------------------------------
(***************************************************************************)
(* The first packet in what the server sent, as an answer to packet pid    *)
(* with record rn: more (not whole), good, bad, or open: it confirms the   *)
(* record, but complains about one that was never sent.                    *)
(***************************************************************************)
Confirms(recs) == FoldLeft(LAMBDA acc, s : Append(acc, <<s.v.CRN, s.v.RST>>), <<>>, Carried(recs, "resp"))

AnswerTo(b, pid, rn) ==
  LET f == Frame(b) IN
  IF f.k = "foreign" THEN IF Len(b) < 10 \/ b[4] < 11 \/ Len(b) < FrameLen(b) THEN "bad" ELSE
       LET d == DecPkg(SubSeq(b, 1, FrameLen(b)), NoKey) IN IF d.ok THEN "open" ELSE "bad"
  ELSE IF f.k = "more" THEN "more"
  ELSE LET d == DecPkg(SubSeq(b, 1, f.n), NoKey) IN
    IF ~d.ok THEN "bad"
    ELSE IF d.v.PT # 0 THEN "bad"
    ELSE IF d.v.body.RPID # pid \/ d.v.body.RES # 0 \/ ~d.v.body.sdr THEN "bad"
    ELSE LET c == Confirms(d.v.body.recs)
             mine == {i \in 1..Len(c) : c[i][1] = rn}
         IN IF mine = {} \/ \E i \in mine : c[i][2] # 0 THEN "bad"
            ELSE IF \E i \in 1..Len(c) : c[i][2] # 0 THEN "open"
            ELSE "good"

-------------------------------------------------------------------------------
(* when may it end, and how?  a: answer so far, shut: no more will come, late: the time is over *)
MaySucceed(a) == a \in {"good", "open"}
MayFail(a, shut, late) == a # "good" /\ (a \in {"bad", "open"} \/ shut \/ late)
=============================================================================

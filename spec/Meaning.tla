-------------------------------- MODULE Meaning --------------------------------
(***************************************************************************)
(* What the bytes of a connection mean to the receiver: the packets in     *)
(* them (a plan, see Receiver) and, for each position record, the record   *)
(* that has to reach the stores.                                           *)
(***************************************************************************)
EXTENDS Wire

(* a 32-bit number divided by ten *)
Div10(v) == LET r == v[2] % 10 IN << (r * 65536 + v[1]) \div 10, v[2] \div 10 >>
(* (r * 65536 + lo) div 10 < 65536 because r < 10 *)

NoRecord ==
  [ has |-> FALSE, ntm |-> <<0, 0>>, lat |-> <<0, 0>>, laneg |-> FALSE, lon |-> <<0, 0>>, loneg |-> FALSE, spd |-> 0, course |-> 0,
    nsat |-> 0, pdop |-> 0, hdop |-> 0, vdop |-> 0, ns |-> 0, an |-> <<>>, liq |-> <<>>,
    num |-> FALSE, num24 |-> <<0, 0>>, num8 |-> 0 ]

Analog(v) == SelectSeq([i \in 1..8 |->
                 CASE i = 1 -> <<v.ASFE1, 1, v.ANS1>> [] i = 2 -> <<v.ASFE2, 2, v.ANS2>> [] i = 3 -> <<v.ASFE3, 3, v.ANS3>>
                   [] i = 4 -> <<v.ASFE4, 4, v.ANS4>> [] i = 5 -> <<v.ASFE5, 5, v.ANS5>> [] i = 6 -> <<v.ASFE6, 6, v.ANS6>>
                   [] i = 7 -> <<v.ASFE7, 7, v.ANS7>> [] i = 8 -> <<v.ASFE8, 8, v.ANS8>> ], LAMBDA x : x[1] = "1")

With(r, v) ==
  CASE v.k = "pos" -> [r EXCEPT !.has = TRUE, !.ntm = v.NTM, !.lat = v.LAT, !.laneg = (v.LAHS = "1"), !.lon = v.LONG, !.loneg = (v.LOHS = "1"),
                                !.spd = v.SPD, !.course = IF v.DIRH = 1 THEN 256 + (v.DIR % 128) ELSE v.DIR]
    [] v.k = "ext" -> [r EXCEPT !.nsat = v.SAT, !.pdop = v.PDOP, !.hdop = v.HDOP, !.vdop = v.VDOP, !.ns = v.NS]
    [] v.k = "ad" -> LET a == Analog(v) IN [r EXCEPT !.an = @ \o [i \in 1..Len(a) |-> <<a[i][2], a[i][3]>>]]
    [] v.k = "absan" -> [r EXCEPT !.an = Append(@, <<v.ASN, v.ASV>>)]
    [] v.k = "liq" -> [r EXCEPT !.liq = Append(@, <<v.LLSN, v.LLSEF,
                                                   IF v.LLSVU \in {"00", "01"} THEN v.LLSD ELSE <<0, 0>>,
                                                   IF v.LLSVU = "10" THEN Div10(v.LLSD) ELSE <<0, 0>> >>)]
    [] v.k = "abscn" /\ v.CN = 110 -> [r EXCEPT !.num = TRUE, !.num24 = v.CNV]
    [] v.k = "abscn" /\ v.CN = 111 -> [r EXCEPT !.num = TRUE, !.num8 = v.CNV[1] % 256]
    [] OTHER -> r

RecordOf(r, pid) ==
  LET x == FoldLeft(LAMBDA acc, s : With(acc, s.v), NoRecord, r.subs)
  IN [x EXCEPT !.num24 = IF x.num THEN << x.num24[1], x.num24[2] + 256 * x.num8 >> ELSE <<pid, 0>>]

SubKinds(r) == {r.subs[i].v.k : i \in 1..Len(r.subs)}
TIDs(r) == LET t == SelectSeq(r.subs, LAMBDA s : s.v.k = "term") IN [i \in 1..Len(t) |-> t[i].v.TID]

RecMeaning(r, pid) ==
  LET x == RecordOf(r, pid) IN
  [ crn |-> r.RN, svc |-> r.SST, conf |-> "resp" \in SubKinds(r),
    ids |-> (IF r.OBFE = "1" THEN << r.OID >> ELSE <<>>) \o TIDs(r),
    pos |-> IF x.has THEN << x >> ELSE <<>> ]

PacketMeaning(b) ==
  LET d == DecPkg(b, [k |-> "none"]) IN
  IF ~d.ok THEN [k |-> "bad", pid |-> d.pid, codes |-> d.codes]
  ELSE IF d.v.PT = 0 THEN [k |-> "resp"]
  ELSE LET rs == d.v.body.recs IN
       [k |-> "data", pid |-> d.pid, auth |-> \E i \in 1..Len(rs) : SubKinds(rs[i]) \cap {"term", "auth"} # {},
        recs |-> [i \in 1..Len(rs) |-> RecMeaning(rs[i], d.pid)]]

(* the plan of a stream; a foreign item may be recognised from its first wrong byte on *)
RECURSIVE PlanFrom(_, _)
PlanFrom(b, o) ==
  IF Len(b) > o /\ b[o + 1] # 1 THEN << [from |-> o, n |-> o + 1, m |-> [k |-> "foreign"]] >>
  ELSE IF Len(b) > o + 3 /\ b[o + 4] < 11 THEN << [from |-> o, n |-> o + 4, m |-> [k |-> "foreign"]] >>
  ELSE IF Len(b) < o + Prefix THEN <<>>
  ELSE LET n == FrameLen(SubSeq(b, o + 1, o + Prefix)) IN
       IF Len(b) < o + n THEN <<>>
       ELSE << [from |-> o, n |-> o + n, m |-> PacketMeaning(SubSeq(b, o + 1, o + n))] >> \o PlanFrom(b, o + n)

PlanOfStream(b) == PlanFrom(b, 0)

-------------------------------------------------------------------------------
(* comparing a stored record with what was sent *)
SameRec(r, g) ==
  /\ g.ntm = r.ntm /\ g.lat = r.lat /\ g.lon = r.lon
  /\ (r.lat # <<0, 0>> => g.laneg = r.laneg) /\ (r.lon # <<0, 0>> => g.loneg = r.loneg)
  /\ g.spd = r.spd /\ g.course = r.course /\ g.nsat = r.nsat /\ g.pdop = r.pdop /\ g.hdop = r.hdop
  /\ g.vdop = r.vdop /\ g.ns = r.ns /\ g.pid = r.num24
  /\ Len(g.an) = Len(r.an) /\ \A i \in 1..Len(r.an) : g.an[i] = r.an[i]
  /\ Len(g.liq) = Len(r.liq) /\ \A i \in 1..Len(r.liq) : g.liq[i] = r.liq[i]

(* C01: the same plan results however one scans the stream; Frame of Wire is the boundary rule *)
=============================================================================

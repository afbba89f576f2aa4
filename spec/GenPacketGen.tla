----------------------------- MODULE GenPacketGen -----------------------------
(***************************************************************************)
(* The scenarios for the packet generator: requests over the ranges of the *)
(* fields, answers of every kind, and the ways to deliver them.            *)
(***************************************************************************)
EXTENDS PacketGen, Json, IOUtils

Thorough == IOEnv.GEN_TIER = "thorough"

U32s == {<<0, 0>>, <<1, 0>>, <<65535, 0>>, <<0, 1>>, <<65535, 32767>>, <<0, 32768>>, <<65534, 65535>>, <<65535, 65535>>, <<4660, 22136>>}
Pids == {1, 2, 255, 256, 4660, 32767, 32768, 65534, 65535}
Base == [pid |-> 4660, oid |-> <<22136, 4660>>, ntm |-> <<30000, 5000>>, lat |-> <<23456, 41000>>, laneg |-> FALSE,
         lon |-> <<34567, 22000>>, loneg |-> FALSE, liq |-> <<1, 1>>]

Requests ==
  {[Base EXCEPT !.pid = p] : p \in Pids}
  \cup {[Base EXCEPT !.oid = x] : x \in U32s \ {<<0, 0>>}}
  \cup {[Base EXCEPT !.ntm = x] : x \in U32s}
  \cup {[Base EXCEPT !.liq = x] : x \in U32s}
  \cup {[Base EXCEPT !.lat = x, !.laneg = n, !.loneg = m] : x \in U32s, n \in BOOLEAN, m \in BOOLEAN}
  \cup {[Base EXCEPT !.lon = x, !.loneg = n, !.laneg = m] : x \in U32s, n \in BOOLEAN, m \in BOOLEAN}

-------------------------------------------------------------------------------
(* answers to packet p *)
Hdr(pid, pt) == [PRV |-> 1, SKID |-> 0, PRF |-> "00", RTE |-> "0", ENA |-> "00", CMP |-> "0", PR |-> "00", HL |-> 0, HE |-> 0, FDL |-> 0,
                 PID |-> pid, PT |-> pt, PRA |-> 0, RCA |-> 0, TTL |-> 0, nobody |-> FALSE, SFRCS |-> 0]
Resp(crn, rst) == [SRT |-> 0, SRL |-> 0, v |-> [k |-> "resp", CRN |-> crn, RST |-> rst]]
ResultCode(n) == [SRT |-> 9, SRL |-> 0, v |-> [k |-> "result", RCD |-> n]]
Unknown == [SRT |-> 200, SRL |-> 0, v |-> [k |-> "raw", RAW |-> <<1, 2, 3>>]]
Rec(rn, subs) == [RL |-> 0, RN |-> rn, SSOD |-> "0", RSOD |-> "0", GRP |-> "0", RPP |-> "00", TMFE |-> "0", EVFE |-> "0", OBFE |-> "0",
                  OID |-> <<0, 0>>, EVID |-> <<0, 0>>, TM |-> <<0, 0>>, SST |-> 2, RST |-> 2, subs |-> subs]
RecAll(rn, subs) == [Rec(rn, subs) EXCEPT !.TMFE = "1", !.EVFE = "1", !.OBFE = "1", !.OID = <<1, 2>>, !.TM = <<3, 4>>, !.RPP = "11", !.SSOD = "1"]
Ack(p, res, recs) == [RPID |-> p, RES |-> res, sdr |-> recs # <<>>, recs |-> recs]
Enc(h, body) == EncPkg(h @@ [body |-> body], NoKey).v
A0(p, res, recs) == Enc(Hdr(1, 0), Ack(p, res, recs))

Plain(p) == A0(p, 0, <<Rec(1, <<Resp(1, 0)>>)>>)

(* byte i of b changed, checksums as they were or made to fit *)
Fit(b) == LET hl == HdrLen(BitStr(Bits(b[3], 5, 1), 1)) n == U16(b, 6) IN
  IF Len(b) < hl + n + 2 THEN b
  ELSE LET h == SubSeq(b, 1, hl - 1) d == SubSeq(b, hl + 1, hl + n) IN h \o <<Crc8(h)>> \o d \o E16(Crc16(d))
Changed(b, i, m) == [b EXCEPT ![i] = @ ^^ m]

Other(p) == (p + 1) % 65536
Swap(p) == (p % 256) * 256 + (p \div 256)

Answers(p) ==
  {Plain(p),
   A0(p, 0, <<RecAll(7, <<Resp(1, 0)>>)>>),
   A0(p, 0, <<Rec(1, <<Resp(1, 0), ResultCode(0)>>)>>),
   A0(p, 0, <<Rec(1, <<ResultCode(0), Resp(1, 0)>>)>>),
   A0(p, 0, <<Rec(1, <<Unknown, Resp(1, 0)>>)>>),
   A0(p, 0, <<Rec(1, <<ResultCode(0)>>), Rec(2, <<Resp(1, 0)>>)>>),
   A0(p, 0, <<Rec(1, <<Resp(1, 0), Resp(2, 0)>>)>>),
   A0(p, 0, <<Rec(1, <<Resp(9, 0)>>), Rec(2, <<Resp(1, 0)>>)>>),
   Enc([Hdr(65535, 0) EXCEPT !.RTE = "1", !.PRA = 258, !.RCA = 772, !.TTL = 5, !.PRF = "11", !.PR = "11", !.CMP = "1"], Ack(p, 0, <<Rec(1, <<Resp(1, 0)>>)>>)),
   Plain(p) \o Plain(Other(p)), Plain(p) \o <<0>>, Plain(Other(p)) \o Plain(p),
   A0(p, 0, <<Rec(1, <<Resp(1, 0), Resp(1, 5)>>)>>), A0(p, 0, <<Rec(1, <<Resp(1, 5), Resp(1, 0)>>)>>),
   A0(p, 0, <<Rec(1, <<Resp(1, 0)>>), Rec(2, <<Resp(1, 255)>>)>>), A0(p, 0, <<Rec(1, <<Resp(1, 128)>>), Rec(2, <<Resp(1, 0)>>)>>),
   A0(p, 0, <<Rec(1, <<Resp(1, 0), Resp(2, 5)>>)>>),
   A0(Other(p), 0, <<Rec(1, <<Resp(1, 0)>>)>>), A0(p - 1, 0, <<Rec(1, <<Resp(1, 0)>>)>>), A0(0, 0, <<Rec(1, <<Resp(1, 0)>>)>>),
   A0(Swap(p), 0, <<Rec(1, <<Resp(1, 0)>>)>>), A0((p + 256) % 65536, 0, <<Rec(1, <<Resp(1, 0)>>)>>),
   A0(p, 0, <<>>), A0(p, 0, <<Rec(1, <<ResultCode(0)>>)>>), A0(p, 0, <<Rec(1, <<Unknown>>)>>),
   A0(p, 0, <<Rec(1, <<Resp(0, 0)>>)>>), A0(p, 0, <<Rec(1, <<Resp(2, 0)>>)>>), A0(p, 0, <<Rec(1, <<Resp(256, 0)>>)>>), A0(p, 0, <<Rec(1, <<Resp(257, 0)>>)>>),
   Enc(Hdr(1, 1), [recs |-> <<Rec(1, <<Resp(1, 0)>>)>>]), Enc(Hdr(p, 1), [recs |-> <<Rec(1, <<Resp(1, 0)>>)>>]),
   Enc(Hdr(p, 1), [recs |-> <<Rec(1, <<ResultCode(0)>>)>>]),
   <<0>>, <<1>>, [i \in 1..40 |-> 0], [i \in 1..40 |-> 1], [i \in 1..40 |-> 255]}
  \cup {A0(p, r, <<Rec(1, <<Resp(1, 0)>>)>>) : r \in {1, 2, 4, 8, 16, 32, 64, 128, 129, 132, 137, 138, 153, 155, 255}}
  \cup {A0(p, 0, <<Rec(1, <<Resp(1, s)>>)>>) : s \in {1, 2, 4, 8, 16, 32, 64, 128, 132, 155, 255}}
  \cup {A0(p, r, <<>>) : r \in {1, 155}}
  \cup {A0(p, 155, <<Rec(1, <<Resp(1, 155)>>)>>)}

Masks == IF Thorough THEN {1, 2, 4, 8, 16, 32, 64, 128, 255} ELSE {1, 16, 255}
Mutants(p) == LET b == Plain(p) IN
  {Changed(b, i, m) : i \in 1..Len(b), m \in Masks} \cup {Fit(Changed(b, i, m)) : i \in 1..Len(b), m \in Masks}

-------------------------------------------------------------------------------
S(n) == [o |-> "send", n |-> n]
W(n) == [o |-> "wait", n |-> n]
C == [o |-> "close", n |-> 0]

(* deliveries of n bytes within the given seconds *)
Whole(n) == <<S(n)>>
Cuts(n) == IF Thorough THEN 1..(n - 1) ELSE {x \in {1, 3, 9, 10, 11, 12, n \div 2, n - 2, n - 1} : x < n}
InTime(n) ==
  {<<S(n)>>, <<S(n), C>>, [i \in 1..(2 * n) |-> IF i % 2 = 1 THEN S(1) ELSE W(4)], <<W(300), S(n)>>}
  \cup {<<S(k), W(40), S(n - k)>> : k \in Cuts(n)}
  \cup {<<S(k), W(40), S(n - k), C>> : k \in {3, n - 1}}
Never(n) == {<<>>, <<C>>, <<W(200), C>>} \cup {<<S(k), C>> : k \in Cuts(n)} \cup {<<S(k)>> : k \in {5, n - 1}}
TooLate(n, t) == {<<W(t * 1000 + 700), S(n)>>, <<S(11), W(t * 1000 + 700), S(n - 11)>>, <<S(n - 1), W(t * 1000 + 700), S(1)>>,
                  <<S(3), W(t * 500), S(5), W(t * 500 + 700), S(n - 8)>>}
Almost(n, t) == {<<W(t * 1000 - 900), S(n)>>, <<S(11), W(t * 1000 - 900), S(n - 11)>>, <<S(3), W(t * 500), S(8), W(t * 500 - 900), S(n - 11)>>}

Case(r, b, d, t) == [req |-> r, ans |-> b, plan |-> d, timeout |-> t]
Cases ==
  {Case(r, Plain(r.pid), <<S(Len(Plain(r.pid)))>>, 9) : r \in Requests}
  \cup {Case([Base EXCEPT !.pid = p], b, <<S(Len(b)), W(50), C>>, 9) : p \in {4660}, b \in Answers(4660)}
  \cup UNION {{Case([Base EXCEPT !.pid = p], b, <<S(Len(b)), W(50), C>>, 9) : b \in Answers(p)} : p \in IF Thorough THEN {1, 511, 65535} ELSE {511}}
  \cup {Case(Base, b, <<S(Len(b)), W(50), C>>, 9) : b \in Mutants(Base.pid)}
  (* the acknowledgement follows something else, at once or a little later, or follows nothing else but twice *)
  \cup UNION {{Case(Base, b \o Plain(4660), d, 9) : d \in {<<S(Len(b) + Len(Plain(4660))), W(50), C>>, <<S(Len(b)), W(60), S(Len(Plain(4660))), W(50), C>>}} : b \in Answers(4660)}
  \cup UNION {{Case(Base, b, d, 9) : d \in InTime(Len(b)) \cup {x \in Never(Len(b)) : x # <<>> /\ x[Len(x)] = C}}
                : b \in {Plain(Base.pid), A0(Base.pid, 0, <<Rec(1, <<Resp(1, 5)>>)>>)}}
  \cup UNION {{Case(Base, b, d, 1) : d \in Never(Len(b)) \cup TooLate(Len(b), 1)} : b \in {Plain(Base.pid)}}
  \cup UNION {{Case(Base, b, d, 2) : d \in TooLate(Len(b), 2) \cup Almost(Len(b), 2)} : b \in {Plain(Base.pid)}}
  (* 0: no -timeout argument: five seconds *)
  \cup UNION {{Case(Base, b, d, 0) : d \in TooLate(Len(b), 5) \cup Almost(Len(b), 5)} : b \in {Plain(Base.pid)}}

ASSUME ndJsonSerialize(IOEnv.GEN_OUT, SetToSeq(Cases))

VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================

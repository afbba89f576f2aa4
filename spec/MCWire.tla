-------------------------------- MODULE MCWire --------------------------------
(***************************************************************************)
(* Model checking of the wire format itself: the specification's decoder   *)
(* and encoder have the properties that the library is held to.  A state   *)
(* is one case; the cases of a mode are enumerated exhaustively.           *)
(***************************************************************************)
EXTENDS Gen, Json, IOUtils

Meta == JsonDeserialize(IOEnv.MC_META)
Seed == Meta.seed
Mode == Meta.mode
N == Meta.n

VARIABLES a, b        \* the case: two numbers (or, in mode "round", a kind and a number)
vars == <<a, b>>

AllKinds == Kinds \o <<"plus">>
RoundKinds == Meta.kinds
NoKey == [k |-> "none"]
KeysUsed == << [k |-> "xor", x |-> 90], [k |-> "pad", x |-> 3], [k |-> "pad", x |-> 0] >>

(* small packets of both types *)
SmallKinds == <<"result", "absan", "ext", "state">>
Pkg(i, key) == GenPkg(i % 2, SmallKinds, 1 + (i % 2), 2, H3(Seed, 91, i), i % 3 = 0, IF key.k = "none" THEN "00" ELSE Str2[2 + (i % 3)], 0)
BigPkg(i, auto) == GenPkg(i % 2, AllKinds, 1 + (i % 3), 3, H3(Seed, 92, i), i % 3 = 0, "00", auto)
Bytes(p, key) == EncPkg(p, key).v

Flip(m, bit) == [m EXCEPT ![1 + (bit \div 8)] = @ ^^ Pow2[1 + (bit % 8)]]

(* fields that are present in v's encoding *)
Present(s, v) == { s[i].n : i \in { j \in 1..Len(s) : s[j].k # "flags" /\ (s[j].c = "" \/ v[s[j].c] = "1") } }
                 \cup (UNION { { s[i].a[j][1] : j \in 1..Len(s[i].a) } : i \in { q \in 1..Len(s) : s[q].k = "flags" } } \ {"-"})

RoundOk ==
  LET kind == RoundKinds[a]  v == GenValue(kind, b, Seed)  e == EncSub(v)
  IN IF kind = "plus"
     THEN PlusDec(e).ok /\ PlusDec(e).v = v.msg /\ PlusCanonical(e)
     ELSE LET d == DecSub(KindType(kind), e, 1, Len(e))
              s == Schema(kind)
          IN /\ d.ok
             /\ \A n \in DOMAIN d.v \ {"k"} : n \in Present(s, v) => d.v[n] = v[n]
             /\ \A i \in 1..Len(s) : (s[i].k # "flags" /\ s[i].n \notin Present(s, v)) => d.v[s[i].n] = Zero(s[i])
             /\ EncSub(d.v) = e
             /\ \A n \in 0..(Len(e) - 1) : kind \notin {"disp", "auth"} => ~DecSub(KindType(kind), SubSeq(e, 1, n), 1, n).ok

PacketOk ==
  LET p == BigPkg(a, 0)  e == EncPkg(p, NoKey)
  IN e.ok /\ LET d == DecPkg(e.v, NoKey) IN
             /\ d.ok /\ EncPkg(d.v @@ [nobody |-> FALSE], NoKey).v = e.v
             /\ Len(e.v) = FrameLen(e.v)
             /\ Frame(e.v) = [k |-> "packet", n |-> Len(e.v)]

(* leaving lengths and types open gives the same packet as setting them *)
AutoOk ==
  LET p == BigPkg(a, 1)
      SetSub(x) == [x EXCEPT !.SRT = KindType(x.v.k), !.SRL = Len(EncSub(x.v))]
      SetRec(r) == [r EXCEPT !.RL = Len(EncRds(r.subs)), !.subs = [j \in 1..Len(r.subs) |-> SetSub(r.subs[j])]]
      full == [p EXCEPT !.HL = HdrLen(p.RTE), !.body = [@ EXCEPT !.recs = [i \in 1..Len(p.body.recs) |-> SetRec(p.body.recs[i])]]]
  IN EncPkg(p, NoKey).ok /\ EncPkg(p, NoKey) = EncPkg(full, NoKey)

CryptOk ==
  \A i \in 1..Len(KeysUsed) :
    LET key == KeysUsed[i]  p == Pkg(a, key)  e == EncPkg(p, key)  d == DecPkg(e.v, key)
        plain == [p EXCEPT !.ENA = "00"]
    IN /\ e.ok /\ d.ok
       /\ d.v.body = DecPkg(Bytes(plain, NoKey), NoKey).v.body
       /\ ~EncPkg(p, NoKey).ok /\ ~EncPkg(p, [k |-> "err"]).ok
       /\ DecPkg(e.v, NoKey).codes = {PcDecryptError}
       /\ DecPkg(e.v, [k |-> "err"]).codes = {PcDecryptError}
       /\ U16(e.v, Len(e.v) - 1) = Crc16(SubSeq(e.v, HdrLen(p.RTE) + 1, Len(e.v) - 2))

(* every one- and two-bit error of a packet without routing, every burst up to the width of the header checksum *)
CorruptPkg == Bytes(Pkg(6 * (Seed % 8) + 1, NoKey), NoKey)     \* without routing: CRC-8 is blind to the first and last bit of a routed header together
CorruptOk == ~DecPkg(Flip(IF b < 0 THEN CorruptPkg ELSE Flip(CorruptPkg, b), a), NoKey).ok

BurstOk ==      \* a: first bit (most significant first), b: pattern, odd
  LET m == CorruptPkg
      Bit(i) == IF i >= 8 * Len(m) THEN {} ELSE {(i \div 8) * 8 + 7 - (i % 8)}
      bits == UNION { Bit(a + j) : j \in { q \in 0..15 : Bits(b, q, 1) = 1 } }
  IN ~DecPkg(FoldLeft(Flip, m, SetToSeq(bits)), NoKey).ok

(* cutting a packet anywhere, or its body with lengths and checksums made to fit *)
TruncOk ==
  LET m == Bytes(BigPkg(a, 0), NoKey)  h == HdrLen(BigPkg(a, 0).RTE)
      body == SubSeq(m, h + 1, Len(m) - 2)
      Cut(n) == LET hd == SubSeq(m, 1, 5) \o E16(n) \o SubSeq(m, 8, h - 1)
                    bd == SubSeq(body, 1, n)
                IN hd \o <<Crc8(hd)>> \o bd \o E16(Crc16(bd))
      whole == DecPkg(m, NoKey).v.body.recs
  IN /\ \A n \in 0..(Len(m) - 1) : ~DecPkg(SubSeq(m, 1, n), NoKey).ok
     /\ \A n \in 1..(Len(body) - 1) : LET d == DecPkg(Cut(n), NoKey) IN
          d.ok => /\ Len(d.v.body.recs) <= Len(whole)          \* only at a record boundary, or with the last record's data absent
                  /\ \A i \in 1..Len(d.v.body.recs) : \/ d.v.body.recs[i] = whole[i]
                                                      \/ i = Len(d.v.body.recs) /\ d.v.body.recs[i] = [whole[i] EXCEPT !.subs = <<>>]

(* an unknown subrecord anywhere changes nothing but the record length *)
UnknownOk ==
  LET recs == BigPkg(2 * a + 1, 0).body.recs
      t == CHOOSE x \in {3, 8, 28, 33, 200, 255} : (H(a, 5) % 6) = Cardinality({y \in {3, 8, 28, 33, 200, 255} : y < x})
      raw == [SRT |-> t, SRL |-> H(a, 6) % 9, v |-> [k |-> "raw", RAW |-> RBytes(a, H(a, 6) % 9)]]
      Ins(r, j) == [r EXCEPT !.RL = 0, !.subs = SubSeq(@, 1, j) \o <<raw>> \o SubSeq(@, j + 1, Len(@))]
      NoLen(rs) == [i \in 1..Len(rs) |-> [rs[i] EXCEPT !.RL = 0]]
      Dc(rs) == LET m == EncSds(rs) IN DecSds(m, 1, Len(m))
  IN \A i \in 1..Len(recs) : \A j \in 0..Len(recs[i].subs) :
       LET d == Dc([recs EXCEPT ![i] = Ins(@, j)]) IN d.ok /\ NoLen(d.v) = NoLen(Dc(recs).v)

Init ==
  CASE Mode = "round" -> a \in 1..Len(RoundKinds) /\ b = 0
    [] Mode = "corrupt" -> a \in { x \in 0..(8 * Len(CorruptPkg) - 1) : x % N = Seed % N } /\ b = 0 - 1
    [] Mode = "burst" -> a \in 0..(8 * Len(CorruptPkg) - 1) /\ b = 1
    [] OTHER -> a = 1 /\ b = 0

Next ==
  CASE Mode = "round" -> b + 1 < N /\ b' = b + 1 /\ a' = a
    [] Mode = "corrupt" -> /\ b + 1 < a /\ b' = b + 1 /\ a' = a
    [] Mode = "burst" -> /\ b + 2 < N /\ b' = b + 2 /\ a' = a
    [] OTHER -> a + 1 <= N /\ a' = a + 1 /\ b' = b

Holds ==
  CASE Mode = "round" -> RoundOk [] Mode = "packet" -> PacketOk [] Mode = "auto" -> AutoOk [] Mode = "crypt" -> CryptOk
    [] Mode = "corrupt" -> CorruptOk [] Mode = "burst" -> BurstOk [] Mode = "trunc" -> TruncOk [] Mode = "unknown" -> UnknownOk
=============================================================================

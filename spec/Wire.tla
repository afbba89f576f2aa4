--------------------------------- MODULE Wire ---------------------------------
(***************************************************************************)
(* The EGTS wire format: transport packets, service data records and       *)
(* subrecords, as tables of fields from which decoding, encoding and       *)
(* lengths all follow.                                                     *)
(*                                                                         *)
(* Decoders return [ok |-> TRUE, v |-> value] or [ok |-> FALSE].  A value  *)
(* is a record of the fields' names in the standard; flags are strings of  *)
(* "0" and "1" as in the library's API.                                    *)
(***************************************************************************)
EXTENDS Bits

Fail == [ok |-> FALSE]
Good(x) == [ok |-> TRUE, v |-> x]

-------------------------------------------------------------------------------
(***************************************************************************)
(* Field tables.  A field is [k, n, c, a]: kind, name, the flag that       *)
(* announces it ("" if it is always there), and an argument.               *)
(*   u8 u16 u24 u32 i8   integers                                          *)
(*   time deg            32-bit seconds since 2010 / coordinate units      *)
(*   flags               one byte; a = <<name, width, "s" or "i">> from    *)
(*                       the most significant bit; name "-" is reserved    *)
(*   spd                 16 bits: DIRH, ALTS, 14 bits of speed in 0.1 km/h *)
(*   dir                 8 low bits of the course; the library keeps DIRH  *)
(*                       in bit 7                                          *)
(*   bytes z rest        a bytes / up to and without a zero byte / the rest*)
(*   zopt                as z, but the whole field may be absent           *)
(***************************************************************************)
F(k, n) == [k |-> k, n |-> n, c |-> "", a |-> <<>>]
FIf(c, k, n) == [k |-> k, n |-> n, c |-> c, a |-> <<>>]
FIfN(c, k, n, a) == [k |-> k, n |-> n, c |-> c, a |-> a]
Flags(n, a) == [k |-> "flags", n |-> n, c |-> "", a |-> a]
B(n) == <<n, 1, "s">>
B2(n) == <<n, 2, "s">>
Rsv(w) == <<"-", w, "s">>

SchemaResponse == << F("u16", "CRN"), F("u8", "RST") >>

SchemaTermIdentity ==
  << F("u32", "TID"),
     Flags("FL", << B("MNE"), B("BSE"), B("NIDE"), B("SSRA"), B("LNGCE"), B("IMSIE"), B("IMEIE"), B("HDIDE") >>),
     FIf("HDIDE", "u16", "HDID"),
     FIfN("IMEIE", "bytes", "IMEI", 15),
     FIfN("IMSIE", "bytes", "IMSI", 16),
     FIfN("LNGCE", "bytes", "LNGC", 3),
     FIfN("NIDE", "bytes", "NID", 3),
     FIf("BSE", "u16", "BS"),
     FIfN("MNE", "bytes", "MSISDN", 15) >>

SchemaModuleData ==
  << F("i8", "MT"), F("u32", "VID"), F("u16", "FWV"), F("u16", "SWV"), F("u8", "MD"), F("u8", "ST"),
     F("z", "SRN"), F("z", "DSCR") >>

SchemaDispatcherIdentity == << F("u8", "DT"), F("u32", "DID"), F("rest", "DSCR") >>

SchemaAuthInfo == << F("z", "UNM"), F("z", "UPSW"), F("zopt", "SS") >>

SchemaResultCode == << F("u8", "RCD") >>

SchemaPosData ==
  << F("time", "NTM"), F("deg", "LAT"), F("deg", "LONG"),
     Flags("FL", << B("ALTE"), B("LOHS"), B("LAHS"), B("MV"), B("BB"), B("CS"), B("FIX"), B("VLD") >>),
     F("spd", "SPD"), F("dir", "DIR"), F("u24", "ODM"), F("u8", "DIN"), F("u8", "SRC"),
     FIf("ALTE", "u24", "ALT") >>

SchemaExtPosData ==
  << Flags("FL", << Rsv(3), B("NSFE"), B("SFE"), B("PFE"), B("HFE"), B("VFE") >>),
     FIf("VFE", "u16", "VDOP"), FIf("HFE", "u16", "HDOP"), FIf("PFE", "u16", "PDOP"),
     FIf("SFE", "u8", "SAT"), FIf("NSFE", "u16", "NS") >>

SchemaAdSensors ==
  << Flags("DF", << B("DIOE8"), B("DIOE7"), B("DIOE6"), B("DIOE5"), B("DIOE4"), B("DIOE3"), B("DIOE2"), B("DIOE1") >>),
     F("u8", "DOUT"),
     Flags("AF", << B("ASFE8"), B("ASFE7"), B("ASFE6"), B("ASFE5"), B("ASFE4"), B("ASFE3"), B("ASFE2"), B("ASFE1") >>),
     FIf("DIOE1", "u8", "ADIO1"), FIf("DIOE2", "u8", "ADIO2"), FIf("DIOE3", "u8", "ADIO3"), FIf("DIOE4", "u8", "ADIO4"),
     FIf("DIOE5", "u8", "ADIO5"), FIf("DIOE6", "u8", "ADIO6"), FIf("DIOE7", "u8", "ADIO7"), FIf("DIOE8", "u8", "ADIO8"),
     FIf("ASFE1", "u24", "ANS1"), FIf("ASFE2", "u24", "ANS2"), FIf("ASFE3", "u24", "ANS3"), FIf("ASFE4", "u24", "ANS4"),
     FIf("ASFE5", "u24", "ANS5"), FIf("ASFE6", "u24", "ANS6"), FIf("ASFE7", "u24", "ANS7"), FIf("ASFE8", "u24", "ANS8") >>

SchemaCounters ==
  << Flags("CF", << B("CFE8"), B("CFE7"), B("CFE6"), B("CFE5"), B("CFE4"), B("CFE3"), B("CFE2"), B("CFE1") >>),
     FIf("CFE1", "u24", "CN1"), FIf("CFE2", "u24", "CN2"), FIf("CFE3", "u24", "CN3"), FIf("CFE4", "u24", "CN4"),
     FIf("CFE5", "u24", "CN5"), FIf("CFE6", "u24", "CN6"), FIf("CFE7", "u24", "CN7"), FIf("CFE8", "u24", "CN8") >>

SchemaStateData ==
  << F("u8", "ST"), F("u8", "MPSV"), F("u8", "BBV"), F("u8", "IBV"),
     Flags("FL", << Rsv(5), B("NMS"), B("IBU"), B("BBU") >>) >>

SchemaAbsAnSens == << F("u8", "ASN"), F("u24", "ASV") >>
SchemaAbsCntr == << F("u8", "CN"), F("u24", "CNV") >>

SchemaLiquid ==
  << Flags("FL", << Rsv(1), B("LLSEF"), B2("LLSVU"), B("RDF"), <<"LLSN", 3, "i">> >>),
     F("u16", "MADDR"), F("u32", "LLSD") >>

(* subrecord type -> <<kind of value, table>> *)
Known == {0, 1, 2, 5, 7, 9, 15, 16, 17, 18, 19, 20, 21, 24, 25, 27}
SubKind(t) ==
  CASE t = 0 -> "resp" [] t = 1 -> "term" [] t = 2 -> "module" [] t = 5 -> "disp" [] t = 7 -> "auth"
    [] t = 9 -> "result" [] t = 15 -> "plus" [] t = 16 -> "pos" [] t = 17 -> "ext" [] t = 18 -> "ad" [] t = 19 -> "cnt"
    [] t = 20 -> "state" [] t = 21 -> "state" [] t = 24 -> "absan" [] t = 25 -> "abscn" [] t = 27 -> "liq"
Schema(kind) ==
  CASE kind = "resp" -> SchemaResponse [] kind = "term" -> SchemaTermIdentity [] kind = "module" -> SchemaModuleData
    [] kind = "disp" -> SchemaDispatcherIdentity [] kind = "auth" -> SchemaAuthInfo [] kind = "result" -> SchemaResultCode
    [] kind = "pos" -> SchemaPosData [] kind = "ext" -> SchemaExtPosData [] kind = "ad" -> SchemaAdSensors
    [] kind = "cnt" -> SchemaCounters [] kind = "state" -> SchemaStateData [] kind = "absan" -> SchemaAbsAnSens
    [] kind = "abscn" -> SchemaAbsCntr [] kind = "liq" -> SchemaLiquid
(* the type the encoder infers when none is given *)
KindType(kind) ==
  CASE kind = "resp" -> 0 [] kind = "term" -> 1 [] kind = "module" -> 2 [] kind = "disp" -> 5 [] kind = "auth" -> 7
    [] kind = "result" -> 9 [] kind = "plus" -> 15 [] kind = "pos" -> 16 [] kind = "ext" -> 17 [] kind = "ad" -> 18
    [] kind = "cnt" -> 19 [] kind = "state" -> 21 [] kind = "absan" -> 24 [] kind = "abscn" -> 25 [] kind = "liq" -> 27

-------------------------------------------------------------------------------
(* Interpreting a table: decoding *)
Zero(f) == CASE f.k \in {"u8", "u16", "i8", "spd", "dir"} -> 0
             [] f.k \in {"u24", "u32", "deg"} -> <<0, 0>>
             [] f.k = "time" -> <<0, 0>>
             [] OTHER -> <<>>

RECURSIVE FlagFields(_, _, _)
FlagFields(a, byte, hi) ==     \* fields of the flag byte whose next unread bit is hi-1
  IF a = <<>> THEN <<>>
  ELSE LET w == a[1][2]  n == Bits(byte, hi - w, w)
           rest == FlagFields(Tail(a), byte, hi - w)
       IN IF a[1][1] = "-" THEN rest
          ELSE (a[1][1] :> IF a[1][3] = "i" THEN n ELSE BitStr(n, w)) @@ rest

(* index of the first zero byte of b at or after p, 0 if there is none before e *)
RECURSIVE ZeroAt(_, _, _)
ZeroAt(b, p, e) == IF p > e THEN 0 ELSE IF b[p] = 0 THEN p ELSE ZeroAt(b, p + 1, e)

Width(f) == CASE f.k \in {"u8", "i8", "flags", "dir"} -> 1 [] f.k \in {"u16", "spd"} -> 2 [] f.k = "u24" -> 3
              [] f.k \in {"u32", "time", "deg"} -> 4 [] f.k = "bytes" -> f.a [] OTHER -> 0

Put(acc, n, x, p) == [acc EXCEPT !.v = (n :> x) @@ @, !.p = p]

(* one field: acc = [ok, p, v] with p the next unread position of b[..e] *)
DecField(acc, f, b, e) ==
  IF ~acc.ok THEN acc
  ELSE IF f.c # "" /\ acc.v[f.c] # "1" THEN Put(acc, f.n, Zero(f), acc.p)
  ELSE LET p == acc.p  w == Width(f) IN
    IF f.k \in {"z", "zopt"} THEN
         IF f.k = "zopt" /\ p > e THEN Put(acc, f.n, <<>>, p)
         ELSE LET q == ZeroAt(b, p, e)
              IN IF q = 0 THEN [acc EXCEPT !.ok = FALSE] ELSE Put(acc, f.n, SubSeq(b, p, q - 1), q + 1)
    ELSE IF f.k = "rest" THEN Put(acc, f.n, SubSeq(b, p, e), e + 1)
    ELSE IF p + w - 1 > e THEN [acc EXCEPT !.ok = FALSE]
    ELSE CASE f.k = "u8"  -> Put(acc, f.n, b[p], p + 1)
           [] f.k = "i8"  -> Put(acc, f.n, IF b[p] >= 128 THEN b[p] - 256 ELSE b[p], p + 1)
           [] f.k = "u16" -> Put(acc, f.n, U16(b, p), p + 2)
           [] f.k = "u24" -> Put(acc, f.n, U24(b, p), p + 3)
           [] f.k \in {"u32", "time", "deg"} -> Put(acc, f.n, U32(b, p), p + 4)
           [] f.k = "flags" -> [acc EXCEPT !.v = FlagFields(f.a, b[p], 8) @@ @, !.p = p + 1]
           [] f.k = "bytes" -> Put(acc, f.n, SubSeq(b, p, p + w - 1), p + w)
           [] f.k = "spd" -> LET n == U16(b, p) IN
                [acc EXCEPT !.v = ("DIRH" :> Bits(n, 15, 1)) @@ ("ALTS" :> Bits(n, 14, 1)) @@ ("SPD" :> (n % 16384) \div 10) @@ @,
                            !.p = p + 2]
           [] f.k = "dir" -> Put(acc, f.n, IF acc.v["DIRH"] = 1 /\ b[p] < 128 THEN b[p] + 128 ELSE b[p], p + 1)

(* the value of a table in b[p..e]; r.p is the first byte it did not use *)
DecTable(s, b, p, e) ==
  FoldLeft(LAMBDA acc, f : DecField(acc, f, b, e), [ok |-> TRUE, p |-> p, v |-> <<>>], s)

-------------------------------------------------------------------------------
(* Interpreting a table: encoding *)
FlagByte(a, v) ==
  FoldLeft(LAMBDA n, x : n * Pow2[x[2] + 1] + (IF x[1] = "-" THEN 0 ELSE IF x[3] = "i" THEN v[x[1]] ELSE StrBits(v[x[1]])), 0, a)

(* can the flags and bit fields of v be represented? *)
FlagsOk(s, v) ==
  \A i \in 1..Len(s) : s[i].k = "flags" =>
     \A j \in 1..Len(s[i].a) : LET x == s[i].a[j] IN
        x[1] # "-" => IF x[3] = "i" THEN v[x[1]] < Pow2[x[2] + 1] ELSE IsBitStr(v[x[1]], x[2])

EncField(f, v) ==
  IF f.c # "" /\ v[f.c] # "1" THEN <<>>
  ELSE CASE f.k = "u8" -> << v[f.n] >>
         [] f.k = "i8" -> << v[f.n] % 256 >>
         [] f.k = "u16" -> E16(v[f.n])
         [] f.k = "u24" -> E24(v[f.n])
         [] f.k \in {"u32", "time", "deg"} -> E32(v[f.n])
         [] f.k = "flags" -> << FlagByte(f.a, v) >>
         [] f.k \in {"bytes", "rest"} -> v[f.n]
         [] f.k = "z" -> Append(v[f.n], 0)
         [] f.k = "zopt" -> IF v[f.n] = <<>> THEN <<>> ELSE Append(v[f.n], 0)
         [] f.k = "spd" -> E16(v["DIRH"] * 32768 + v["ALTS"] * 16384 + 10 * v["SPD"])
         [] f.k = "dir" -> << IF v["DIRH"] = 1 THEN v["DIR"] % 128 ELSE v["DIR"] >>

EncTable(s, v) == FoldLeft(LAMBDA acc, f : acc \o EncField(f, v), <<>>, s)

-------------------------------------------------------------------------------
(***************************************************************************)
(* Subrecords, record data, service data records.                          *)
(*                                                                         *)
(* Subrecords of unknown type are skipped by their length.  Type 20 is the *)
(* terminal state if it is 5 bytes long and not supported otherwise.  The  *)
(* EGTS-plus subrecord (15) is a protobuf message, see module Plus; here   *)
(* its value is its bytes.                                                 *)
(***************************************************************************)
CONSTANT PlusOk(_)      \* is this byte string a valid EGTS-plus message?

RECURSIVE DecSds(_, _, _), DecRds(_, _, _), DecSub(_, _, _, _)

DecSub(t, b, p, e) ==
  LET kind == SubKind(t) IN
  IF kind = "plus" THEN
       LET m == SubSeq(b, p, e) IN IF PlusOk(m) THEN Good([k |-> "plus", RAW |-> m]) ELSE Fail
  ELSE LET r == DecTable(Schema(kind), b, p, e) IN
       IF ~r.ok THEN Fail
       ELSE IF kind = "resp" /\ ~DecSds(b, r.p, e).ok THEN Fail     \* whatever follows must be records
       ELSE Good(("k" :> kind) @@ r.v)

(* subrecords in b[p..e] *)
DecRds(b, p, e) ==
  LET Step(acc) ==
        IF acc.p + 2 > e THEN [acc EXCEPT !.ok = FALSE]
        ELSE LET t == b[acc.p]  n == U16(b, acc.p + 1)  q == acc.p + 3 IN
          IF q + n - 1 > e THEN [acc EXCEPT !.ok = FALSE]
          ELSE IF t \notin Known THEN [acc EXCEPT !.p = q + n]
          ELSE IF t = 20 /\ n # 5 THEN [acc EXCEPT !.ok = FALSE]
          ELSE LET r == DecSub(t, b, q, q + n - 1) IN
               IF ~r.ok THEN [acc EXCEPT !.ok = FALSE]
               ELSE [ok |-> TRUE, p |-> q + n, v |-> Append(acc.v, [SRT |-> t, SRL |-> n, v |-> r.v])]
      RECURSIVE Loop(_)
      Loop(acc) == IF ~acc.ok \/ acc.p > e THEN acc ELSE Loop(Step(acc))
  IN Loop([ok |-> TRUE, p |-> p, v |-> <<>>])

SchemaSdr ==
  << F("u16", "RL"), F("u16", "RN"),
     Flags("FL", << B("SSOD"), B("RSOD"), B("GRP"), B2("RPP"), B("TMFE"), B("EVFE"), B("OBFE") >>),
     FIf("OBFE", "u32", "OID"), FIf("EVFE", "u32", "EVID"), FIf("TMFE", "time", "TM"),
     F("u8", "SST"), F("u8", "RST") >>

(* records in b[p..e] *)
DecSds(b, p, e) ==
  LET Step(acc) ==
        LET h == DecTable(SchemaSdr, b, acc.p, e) IN
        IF ~h.ok THEN [acc EXCEPT !.ok = FALSE]
        ELSE IF h.p > e      \* the data of the last record may be absent
             THEN [ok |-> TRUE, p |-> h.p, v |-> Append(acc.v, ("subs" :> <<>>) @@ h.v)]
        ELSE LET n == h.v["RL"] IN
          IF h.p + n - 1 > e THEN [acc EXCEPT !.ok = FALSE]
          ELSE LET r == DecRds(b, h.p, h.p + n - 1) IN
               IF ~r.ok THEN [acc EXCEPT !.ok = FALSE]
               ELSE [ok |-> TRUE, p |-> h.p + n, v |-> Append(acc.v, ("subs" :> r.v) @@ h.v)]
      RECURSIVE Loop(_)
      Loop(acc) == IF ~acc.ok \/ acc.p > e THEN acc ELSE Loop(Step(acc))
  IN Loop([ok |-> TRUE, p |-> p, v |-> <<>>])

(* "raw" stands for a subrecord of an unknown type; only generated data has it *)
EncSub(v) == IF v.k \in {"plus", "raw"} THEN v.RAW ELSE EncTable(Schema(v.k), v)

(* SRT = 0 and SRL = 0 ask the encoder to fill them in *)
EncRds(subs) ==
  FoldLeft(LAMBDA acc, s :
     LET d == EncSub(s.v) IN
     acc \o << IF s.SRT = 0 THEN KindType(s.v.k) ELSE s.SRT >> \o E16(IF s.SRL = 0 THEN Len(d) ELSE s.SRL) \o d, <<>>, subs)

EncSds(recs) ==
  FoldLeft(LAMBDA acc, r :
     LET d == EncRds(r.subs) IN
     acc \o EncTable(SchemaSdr, [r EXCEPT !.RL = IF r.RL = 0 THEN Len(d) ELSE r.RL]) \o d, <<>>, recs)

SubOk(v) == v.k \in {"plus", "raw"} \/ FlagsOk(Schema(v.k), v)
SdsOk(recs) == \A i \in 1..Len(recs) : /\ FlagsOk(SchemaSdr, recs[i])
                                       /\ \A j \in 1..Len(recs[i].subs) : SubOk(recs[i].subs[j].v)

-------------------------------------------------------------------------------
(***************************************************************************)
(* Packet bodies: a set of records (type 1), or a response (type 0): the   *)
(* packet it answers, a result, and optionally records.                    *)
(***************************************************************************)
DecBody(pt, b, p, e) ==
  IF pt = 1 THEN LET r == DecSds(b, p, e) IN IF r.ok THEN Good([recs |-> r.v]) ELSE Fail
  ELSE IF e - p < 2 THEN Fail
  ELSE LET r == DecSds(b, p + 3, e) IN
       IF r.ok THEN Good([RPID |-> U16(b, p), RES |-> b[p + 2], sdr |-> (e > p + 2), recs |-> r.v]) ELSE Fail

EncBody(pt, v) == IF pt = 1 THEN EncSds(v.recs)
                  ELSE E16(v.RPID) \o << v.RES >> \o (IF v.sdr THEN EncSds(v.recs) ELSE <<>>)

-------------------------------------------------------------------------------
(* Transport packets *)
PcOk == 0
PcDecryptError == 129
PcIncHeaderForm == 131
PcIncDataForm == 132
PcUnsType == 133
PcHeaderCrc == 137
PcDataCrc == 138

HdrFlags == << B2("PRF"), B("RTE"), B2("ENA"), B("CMP"), B2("PR") >>
SchemaHdr ==
  << F("u8", "PRV"), F("u8", "SKID"), Flags("FL", HdrFlags), F("u8", "HL"), F("u8", "HE"), F("u16", "FDL"),
     F("u16", "PID"), F("u8", "PT"), FIf("RTE", "u16", "PRA"), FIf("RTE", "u16", "RCA"), FIf("RTE", "u8", "TTL"),
     F("u8", "HCS") >>

HdrLen(rte) == IF rte = "1" THEN 16 ELSE 11

(***************************************************************************)
(* Keys: a key is [k |-> "none"], or a cipher: [k |-> "xor", x |-> byte],  *)
(* [k |-> "pad", x |-> n] (n bytes of prefix and the bytes reversed),      *)
(* [k |-> "err"] (always fails).                                           *)
(***************************************************************************)
Encrypt(key, m) == CASE key.k = "xor" -> [i \in 1..Len(m) |-> m[i] ^^ key.x]
                     [] key.k = "pad" -> [i \in 1..key.x |-> 90] \o Reverse(m)
Decrypt(key, m) == CASE key.k = "xor" -> Good([i \in 1..Len(m) |-> m[i] ^^ key.x])
                     [] key.k = "pad" -> IF Len(m) < key.x THEN Fail ELSE Good(Reverse(SubSeq(m, key.x + 1, Len(m))))
                     [] key.k = "err" -> Fail

(***************************************************************************)
(* DecPkg(b, key): the decoded packet if b has no fault; otherwise codes   *)
(* is the set of results that name a fault b really has.  A faulty header  *)
(* makes everything after it meaningless, so only header faults count then.*)
(* Bytes after the packet are ignored.                                     *)
(***************************************************************************)
DecPkg(b, key) ==
  LET h == DecTable(SchemaHdr, b, 1, Len(b))
      Bad(codes, pid) == [ok |-> FALSE, codes |-> codes, pid |-> pid]
      pid == IF Len(b) >= 9 THEN U16(b, 8) ELSE 0
  IN
  IF ~h.ok THEN Bad({PcIncHeaderForm}, pid)
  ELSE LET hl == HdrLen(h.v["RTE"])
           hcsBad == h.v["HCS"] # Crc8(SubSeq(b, 1, hl - 1))
       IN
  IF h.v["HL"] # hl THEN Bad({PcIncHeaderForm, PcHeaderCrc}, pid)
  ELSE IF hcsBad THEN Bad({PcHeaderCrc}, pid)
  ELSE
  LET n == h.v["FDL"]  avail == Len(b) - hl  pt == h.v["PT"]
      whole == n > 0 /\ n <= avail
      raw == IF whole THEN SubSeq(b, hl + 1, hl + n) ELSE <<>>
      enc == h.v["ENA"] # "00"
      plain == IF ~whole THEN Fail ELSE IF ~enc THEN Good(raw) ELSE IF key.k = "none" THEN Fail ELSE Decrypt(key, raw)
      body == IF pt \in {0, 1} /\ plain.ok THEN DecBody(pt, plain.v, 1, Len(plain.v)) ELSE Fail
      crcThere == whole /\ n + 2 <= avail
      crc == IF crcThere THEN U16(b, hl + n + 1) ELSE 0
      faults == (IF pt \notin {0, 1} THEN {PcUnsType} ELSE {})
           \cup (IF ~whole THEN {PcIncDataForm} ELSE {})
           \cup (IF n = 0 THEN {PcDecryptError, PcDataCrc} ELSE {})       \* no data at all: any complaint about it
           \cup (IF whole /\ ~plain.ok THEN {PcDecryptError} ELSE {})
           \cup (IF plain.ok /\ pt \in {0, 1} /\ ~body.ok THEN {PcDecryptError} ELSE {})
           \cup (IF whole /\ ~crcThere THEN {PcDecryptError, PcIncDataForm, PcDataCrc} ELSE {})
           \cup (IF crcThere /\ crc # Crc16(raw) THEN {PcDataCrc} ELSE {})
  IN IF faults # {} THEN Bad(faults, pid)
     ELSE [ok |-> TRUE, codes |-> {PcOk}, pid |-> pid,
           v |-> ("SFRCS" :> crc) @@ ("body" :> body.v) @@ h.v]

(***************************************************************************)
(* EncPkg(v, key): v has the header fields of the API (HL = 0 asks for the *)
(* default) and "body"; v.nobody marks a packet without data.              *)
(***************************************************************************)
EncPkg(v, key) ==
  IF ~FlagsOk(SchemaHdr, v) THEN Fail
  ELSE IF ~v.nobody /\ ~SdsOk(v.body.recs) THEN Fail
  ELSE LET m == IF v.nobody THEN <<>> ELSE EncBody(v.PT, v.body)
           enc == ~v.nobody /\ v.ENA \notin {"00", ""}
       IN
       IF enc /\ key.k \in {"none", "err"} THEN Fail
       ELSE LET raw == IF enc THEN Encrypt(key, m) ELSE m
                hl == IF v.HL = 0 THEN HdrLen(v.RTE) ELSE v.HL
                hdr == EncTable(Front(SchemaHdr), [v EXCEPT !.HL = hl, !.FDL = Len(raw)])
            IN IF Len(raw) > 65535 THEN Fail
               ELSE Good(hdr \o << Crc8(hdr) >> \o (IF raw = <<>> THEN <<>> ELSE raw \o E16(Crc16(raw))))

-------------------------------------------------------------------------------
(***************************************************************************)
(* Framing of the byte stream: at a packet boundary the next ten bytes say *)
(* how long the packet is.                                                 *)
(***************************************************************************)
Prefix == 10
FrameLen(b) == LET n == U16(b, 6) IN b[4] + (IF n > 0 THEN n + 2 ELSE 0)
Frame(b) ==
  IF Len(b) < Prefix THEN [k |-> "more"]
  ELSE IF b[1] # 1 \/ b[4] < 11 THEN [k |-> "foreign"]
  ELSE IF Len(b) < FrameLen(b) THEN [k |-> "more"]
  ELSE [k |-> "packet", n |-> FrameLen(b)]
=============================================================================

------------------------------ MODULE CodecTrace ------------------------------
(***************************************************************************)
(* Validates recorded calls of the library's encoders and decoders against *)
(* the wire format.  A line of the trace is one call with its argument and *)
(* everything it returned:                                                 *)
(*   op = "dec": b (input), res ok/err/panic/hang, code, v (result), and,  *)
(*        if it succeeded, reres/reb (encoding the result again) and len;  *)
(*   op = "enc": v (input), res, b (output), len, and backres/back (the    *)
(*        output decoded again).                                           *)
(* lv is the level: pkg, ptresp, sds (records), rds (subrecords), sub.     *)
(*                                                                         *)
(* Faults(c) names what is wrong with the call c; Focus is the subset that *)
(* the property being checked speaks about.                                *)
(***************************************************************************)
EXTENDS Wire, Plus, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Meta == JsonDeserialize(IOEnv.TRACE_META)
Focus == ToSet(Meta.focus)
W == Meta.stride

MkKey(k) == IF "x" \in DOMAIN k THEN [k |-> k.k, x |-> k.x] ELSE [k |-> k.k]

-------------------------------------------------------------------------------
(* decoding and encoding at every level *)
Dec(c, b) ==
  CASE c.lv = "pkg" -> DecPkg(b, MkKey(c.key))
    [] c.lv = "sub" -> DecSub(KindType(c.kind), b, 1, Len(b))
    [] c.lv = "rds" -> LET r == DecRds(b, 1, Len(b)) IN IF r.ok THEN Good([subs |-> r.v]) ELSE Fail
    [] c.lv = "sds" -> LET r == DecSds(b, 1, Len(b)) IN IF r.ok THEN Good([recs |-> r.v]) ELSE Fail
    [] c.lv = "ptresp" -> DecBody(0, b, 1, Len(b))

RdsOk(subs) == \A j \in 1..Len(subs) : SubOk(subs[j].v)

Enc(c, v) ==
  CASE c.lv = "pkg" -> EncPkg(v, MkKey(c.key))
    [] c.lv = "sub" -> IF SubOk(v) THEN Good(EncSub(v)) ELSE Fail
    [] c.lv = "rds" -> IF RdsOk(v.subs) THEN Good(EncRds(v.subs)) ELSE Fail
    [] c.lv = "sds" -> IF SdsOk(v.recs) THEN Good(EncSds(v.recs)) ELSE Fail
    [] c.lv = "ptresp" -> IF SdsOk(v.recs) THEN Good(EncBody(0, v)) ELSE Fail

-------------------------------------------------------------------------------
(* equality of values; near: coordinates may differ by one wire unit *)
Near(x, y) == x = y \/ (x # <<0, 0>> /\ Dec32(x) = y) \/ (y # <<0, 0>> /\ Dec32(y) = x)

Msg(v) == IF "msg" \in DOMAIN v THEN v.msg ELSE PlusDec(v.RAW).v

SameSub(s, g, near) ==
  /\ s.k = g.k
  /\ IF s.k = "plus" THEN Msg(s) = Msg(g)
     ELSE \A n \in DOMAIN s \ {"k"} :
            n \in DOMAIN g /\ IF near /\ n \in {"LAT", "LONG"} THEN Near(s[n], g[n]) ELSE s[n] = g[n]

SameSubs(s, g, near) ==
  /\ Len(s) = Len(g)
  /\ \A i \in 1..Len(s) : s[i].SRT = g[i].SRT /\ s[i].SRL = g[i].SRL /\ SameSub(s[i].v, g[i].v, near)

SameRecs(s, g, near) ==
  /\ Len(s) = Len(g)
  /\ \A i \in 1..Len(s) : /\ \A n \in DOMAIN s[i] \ {"subs"} : n \in DOMAIN g[i] /\ s[i][n] = g[i][n]
                          /\ SameSubs(s[i].subs, g[i].subs, near)

SameBody(s, g, near) ==
  /\ "RPID" \in DOMAIN s => /\ "RPID" \in DOMAIN g
                            /\ s.RPID = g.RPID /\ s.RES = g.RES /\ s.sdr = g.sdr
  /\ SameRecs(s.recs, g.recs, near)

(* the body checksum differs when a coordinate does *)
SamePkg(s, g, near) ==
  /\ \A n \in DOMAIN s \ ({"body", "nobody"} \cup IF near THEN {"SFRCS"} ELSE {}) : n \in DOMAIN g /\ s[n] = g[n]
  /\ "body" \in DOMAIN g /\ SameBody(s.body, g.body, near)

Same(c, s, g, near) ==
  CASE c.lv = "pkg" -> SamePkg(s, g, near)
    [] c.lv = "sub" -> SameSub(s, g, near)
    [] c.lv = "rds" -> SameSubs(s.subs, g.subs, near)
    [] c.lv = "sds" -> SameRecs(s.recs, g.recs, near)
    [] c.lv = "ptresp" -> SameBody(s, g, near)

-------------------------------------------------------------------------------
(* all EGTS-plus messages of a value are in canonical form *)
SubsCanon(subs) == \A j \in 1..Len(subs) : subs[j].v.k = "plus" => PlusCanonical(subs[j].v.RAW)
RecsCanon(recs) == \A i \in 1..Len(recs) : SubsCanon(recs[i].subs)
Canon(c, v) == CASE c.lv = "pkg" -> RecsCanon(v.body.recs) [] c.lv = "sub" -> v.k = "plus" => PlusCanonical(v.RAW)
                 [] c.lv = "rds" -> SubsCanon(v.subs) [] OTHER -> RecsCanon(v.recs)

Full(c, v) == IF c.lv = "pkg" THEN v @@ [nobody |-> FALSE] ELSE v

(* b is what the encoder has to produce for what b says *)
IsCanonical(c, b, v) == LET e == Enc(c, Full(c, v)) IN e.ok /\ e.v = b /\ Canon(c, v)

(* out is an acceptable encoding of the value whose encoding is want *)
Encodes(c, want, out) ==
  \/ out = want
  \/ LET d == Dec(c, out)
         w == Dec(c, want)
     IN /\ Len(out) = Len(want) /\ d.ok
        /\ Same(c, w.v, d.v, TRUE)
        /\ LET e == Enc(c, Full(c, d.v)) IN e.ok /\ e.v = out

When(cond, f) == IF cond THEN {f} ELSE {}
Crashed(r) == r \in {"panic", "hang", "died"}

Encrypted(c) == IF c.op = "dec" THEN Len(c.b) >= 3 /\ Bits(c.b[3], 3, 2) # 0 ELSE c.v.ENA \notin {"00", ""}

DecFaults(c) ==
  LET s == Dec(c, c.b)
      canon == s.ok /\ c.res = "ok" /\ IsCanonical(c, c.b, s.v)
  IN      When(Crashed(c.res) \/ Crashed(c.reres) \/ c.len = 0 - 2, "crash")
     \cup When(c.res = "ok" /\ ~s.ok, "accept")
     \cup When(c.res = "err" /\ s.ok, "reject")
     \cup When(c.lv = "pkg" /\ ~s.ok /\ c.res = "err" /\ c.code \notin s.codes, "code")
     \cup When(c.lv = "pkg" /\ s.ok /\ c.res = "ok" /\ c.code # PcOk, "code")
     \cup When(c.res = "ok" /\ s.ok /\ ~Same(c, s.v, c.v, FALSE), "value")
     \cup When(canon /\ ~(c.reres = "ok" /\ Encodes(c, c.b, c.reb)), "reenc")
     \cup When(c.res = "ok" /\ c.reres = "ok" /\ c.lv # "pkg" /\ c.len # Len(c.reb) /\ Len(c.reb) < 65536, "len")
     \cup When(c.lv = "pkg" /\ ~Encrypted(c) /\ c.kcalls # 0, "key")

EncFaults(c) ==
  LET e == Enc(c, c.v)
      w == IF e.ok THEN Dec(c, e.v) ELSE Fail
      ok == e.ok /\ w.ok /\ c.res = "ok"
  IN      When(Crashed(c.res) \/ Crashed(c.backres) \/ c.len = 0 - 2, "crash")
     \cup When(c.res = "ok" /\ ~e.ok, "encaccept")
     \cup When(c.res = "err" /\ e.ok /\ w.ok, "encreject")
     \cup When(ok /\ ~Encodes(c, e.v, c.b), "enc")
     \cup When(ok /\ ~(c.backres = "ok" /\ Same(c, w.v, c.back, TRUE)), "back")
     \cup When(ok /\ c.lv # "pkg" /\ c.len # Len(c.b), "len")
     \cup When(c.lv = "pkg" /\ ~Encrypted(c) /\ c.kcalls # 0, "key")
     \cup When(c.lv = "pkg" /\ c.v.nobody /\ e.ok /\ ~(c.res = "ok" /\ c.b = e.v), "nobody")

Faults(c) == IF c.op = "dec" THEN DecFaults(c) ELSE EncFaults(c)

-------------------------------------------------------------------------------
(* The calls are independent of each other: any order will do. *)
VARIABLES i, faults

Init == i \in 1..(IF W < Len(Trace) THEN W ELSE Len(Trace)) /\ faults = Faults(Trace[i]) \cap Focus
Next == /\ i + W <= Len(Trace)
        /\ i' = i + W
        /\ faults' = Faults(Trace[i']) \cap Focus

Conforms == faults = {}
=============================================================================

---------------------------------- MODULE Gen ----------------------------------
(***************************************************************************)
(* Values of the specification, chosen by a seed: every subrecord kind     *)
(* under every combination of its flags, whole packets, EGTS-plus          *)
(* messages.  Used to derive the inputs that are replayed into the         *)
(* implementation.                                                         *)
(***************************************************************************)
EXTENDS Wire, Plus

M == 46337
H(a, b) == LET x == ((a % M) * 211 + (b % M) * 1009 + 7919) % M IN (((x * x) % M) + 31 * x + 17) % M
H3(a, b, c) == H(H(a, b), c)

RByte(s) == H(s, 3) % 256
R16(s) == CASE H(s, 1) % 5 = 0 -> 0 [] H(s, 1) % 5 = 1 -> 65535 [] OTHER -> 256 * RByte(s) + RByte(H(s, 9))
RPair(s, hi) == CASE H(s, 2) % 6 = 0 -> <<0, 0>>
                  [] H(s, 2) % 6 = 1 -> <<65535, hi>>
                  [] OTHER -> << 256 * RByte(s) + RByte(H(s, 9)), IF hi = 255 THEN RByte(H(s, 11)) ELSE 256 * RByte(H(s, 12)) + RByte(H(s, 13)) >>
RBytes(s, n) == [i \in 1..n |-> RByte(H(s, 100 + i))]
RText(s, n) == [i \in 1..n |-> 1 + (H(s, 200 + i) % 255)]

Kinds == <<"resp", "term", "module", "disp", "auth", "result", "pos", "ext", "ad", "cnt", "state", "absan", "abscn", "liq">>




(* mostly short, sometimes around and beyond one byte's worth *)
GenLen(s, n) == CASE H(s, 58) % 24 = 0 -> 244 + (H(s, 51) % 16)
                  [] H(s, 58) % 24 = 1 -> 256 + (H(s, 51) % 500)
                  [] OTHER -> H(s, 51) % n

GenField(f, s, fl) ==
  LET z == H(s, 50) % 5 IN
  CASE f.k = "u8" -> (f.n :> CASE z = 0 -> 0 [] z = 1 -> 255 [] OTHER -> RByte(s))
    [] f.k = "i8" -> (f.n :> CASE z = 0 -> 0 - 1 [] z = 1 -> 0 - 128 [] z = 2 -> 127 [] OTHER -> RByte(s) - 128)
    [] f.k = "u16" -> (f.n :> R16(s))
    [] f.k = "u24" -> (f.n :> RPair(s, 255))
    [] f.k \in {"u32", "time", "deg"} -> (f.n :> RPair(s, 65535))
    [] f.k = "flags" -> FlagFields(f.a, fl, 8)
    [] f.k = "bytes" -> (f.n :> CASE z = 0 -> [i \in 1..f.a |-> IF i > H(s, 55) % (f.a + 4) THEN 0 ELSE 48 + (RByte(H(s, i)) % 10)]
                                  [] z = 1 /\ H(s, 56) % 3 = 0 -> [i \in 1..f.a |-> IF H(s, 57) % 2 = 0 THEN 0 ELSE 255]
                                  [] OTHER -> RBytes(s, f.a))
    [] f.k = "rest" -> (f.n :> RBytes(s, GenLen(s, 30)))
    [] f.k \in {"z", "zopt"} -> (f.n :> RText(s, IF z = 0 THEN 0 ELSE GenLen(s, 40)))
    [] f.k = "spd" -> ("DIRH" :> H(s, 52) % 2) @@ ("ALTS" :> H(s, 53) % 2)
                      @@ ("SPD" :> CASE z = 0 -> 0 [] z = 1 -> 1638 [] OTHER -> R16(s) % 1639)
    [] f.k = "dir" -> (f.n :> H(s, 54) % 256)

(* the i-th value of a table: every flag byte takes all 256 values as i grows, *)
(* and every bit of it both values within any few of them                      *)
Step(j) == <<159, 97, 173, 83, 151, 105>>[1 + (j % 6)]
GenTable(s, i, seed) ==
  FoldLeft(LAMBDA acc, j :
      LET f == s[j]
          x == GenField(f, H3(seed, i, j), (Step(j) * i + seed) % 256)
          y == IF f.k = "dir" /\ acc["DIRH"] = 1 THEN ("DIR" :> 128 + (x["DIR"] % 128)) ELSE x
      IN y @@ acc, <<>>, [j \in 1..Len(s) |-> j])

RECURSIVE GenMsg(_, _)
GenMsg(m, s) ==
  FoldLeft(LAMBDA acc, j :
     LET r == MsgFields(m)[j]
         h == H3(s, 60, j)
         One(q) == CASE r[3] \in {"u32", "fix32", "s32"} -> RPair(H(q, 7), 65535)
                     [] r[3] = "enum" -> << H(q, 8) % 30, 0 >>
                     [] r[3] = "bool" -> H(q, 9) % 2 = 1
                     [] r[3] = "bytes" -> RBytes(H(q, 10), H(q, 11) % 13)
                     [] OTHER -> GenMsg(r[3], H(q, 12))
     IN IF r[4] = "req" THEN (r[2] :> One(h)) @@ acc
        ELSE IF r[4] = "opt" THEN IF h % 2 = 0 THEN acc ELSE (r[2] :> One(h)) @@ acc
        ELSE LET n == CASE h % 4 = 0 -> 1 [] h % 8 = 1 -> 2 [] OTHER -> 0
             IN IF n = 0 THEN acc ELSE (r[2] :> [q \in 1..n |-> One(H(h, q))]) @@ acc,
     [k |-> m], [j \in 1..Len(MsgFields(m)) |-> j])

GenPlus(s) == LET t == GenMsg("StorageRecord", s) IN [k |-> "plus", msg |-> t, RAW |-> PlusEnc(t)]

GenValue(kind, i, seed) == IF kind = "plus" THEN GenPlus(H(seed, i)) ELSE ("k" :> kind) @@ GenTable(Schema(kind), i, seed)

-------------------------------------------------------------------------------
GenSub(kind, s, auto) ==
  LET v == GenValue(kind, s, H(s, 5))
  IN [SRT |-> IF auto % 2 = 1 THEN 0 ELSE KindType(kind),
      SRL |-> IF (auto \div 2) % 2 = 1 THEN 0 ELSE Len(EncSub(v)), v |-> v]

(* a record with n subrecords of the given kinds; auto: bits that leave types and lengths to the encoder *)
GenRec(kinds, n, s, auto) ==
  LET subs == [j \in 1..n |-> GenSub(kinds[1 + (H3(s, 70, j) % Len(kinds))], H3(s, 71, j), IF auto = 4 THEN H3(s, 72, j) % 4 ELSE auto)]
      h == GenTable(SchemaSdr, H(s, 73), H(s, 74))
      rl == Len(EncRds(subs))
  IN ("subs" :> subs) @@ ("RL" :> IF auto = 0 \/ (auto = 4 /\ H(s, 75) % 2 = 0) THEN rl ELSE 0) @@ h

(* a packet: pt, header flags from s, route if rte, encryption ena *)
GenPkg(pt, kinds, nrec, nsub, s, rte, ena, auto) ==
  LET recs == [j \in 1..nrec |-> GenRec(kinds, H3(s, 80, j) % (nsub + 1), H3(s, 81, j), auto)]
      body == IF pt = 1 THEN [recs |-> recs] ELSE [RPID |-> R16(H(s, 82)), RES |-> RByte(H(s, 83)), sdr |-> nrec > 0, recs |-> recs]
      h == GenTable(SchemaHdr, H(s, 84), H(s, 85))
  IN [h EXCEPT !.PRV = 1, !.RTE = IF rte THEN "1" ELSE "0", !.ENA = ena, !.PT = pt,
               !.HL = IF auto = 0 THEN HdrLen(IF rte THEN "1" ELSE "0") ELSE 0, !.FDL = 0]
     @@ [body |-> body, nobody |-> FALSE, SFRCS |-> 0]
=============================================================================

------------------------------- MODULE GenCodec -------------------------------
(***************************************************************************)
(* Writes generated values and their encodings to a file, one per line.    *)
(* What to generate is read from GEN_IN (written by bin/check.py).         *)
(***************************************************************************)
EXTENDS Gen, Json, IOUtils

Req == JsonDeserialize(IOEnv.GEN_IN)

Key(k) == IF "x" \in DOMAIN k THEN [k |-> k.k, x |-> k.x] ELSE [k |-> k.k]

Subs(r) == [ n \in 1..(Len(r.kinds) * r.n) |->
               LET kind == r.kinds[1 + ((n - 1) \div r.n)]
                   v == GenValue(kind, (n - 1) % r.n, r.seed)
               IN [lv |-> "sub", kind |-> kind, v |-> v, b |-> EncSub(v)] ]

Pkgs(r) == [ n \in 1..r.n |->
               LET s == H3(r.seed, 90, n)
                   pt == r.pts[1 + (H(s, 1) % Len(r.pts))]
                   nrec == IF pt = 1 THEN 1 + (H(s, 2) % r.nrec) ELSE H(s, 2) % (r.nrec + 1)
                   key == Key(r.keys[1 + (H(s, 4) % Len(r.keys))])
                   ena == IF key.k = "none" THEN "00" ELSE r.ena[1 + (H(s, 5) % Len(r.ena))]
                   v == GenPkg(pt, r.kinds, nrec, r.nsub, s, H(s, 3) % 3 = 0, ena, IF r.auto THEN 1 + (H(s, 6) % 4) ELSE 0)
                   e == EncPkg(v, key)
               IN [lv |-> "pkg", kind |-> "", v |-> v, key |-> key, b |-> IF e.ok THEN e.v ELSE <<>>] ]

Out(r) == IF r.what = "subs" THEN Subs(r) ELSE Pkgs(r)
All == FoldLeft(LAMBDA acc, r : acc \o Out(r), <<>>, Req)

ASSUME ndJsonSerialize(IOEnv.GEN_OUT, All)

VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================

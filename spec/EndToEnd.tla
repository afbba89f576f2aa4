------------------------------- MODULE EndToEnd -------------------------------
(***************************************************************************)
(* The whole chain: packet generators, each with a request of its own, a   *)
(* receiver, and its storages.  What a generator reports is compared with  *)
(* what the storages have, whatever lies between the two: the packets, the *)
(* connections, the connectors, and a receiver that may be killed.         *)
(*                                                                         *)
(* For each request and storage, got is the sequence of the verdicts with  *)
(* which the storage was handed the report: ok, slow, late (it took it),   *)
(* refuse, slowrefuse, or before, after: its connection broke before or    *)
(* after it took it, so it may be handed over once more.                   *)
(***************************************************************************)
EXTENDS PacketGen

(* is g the record that request r asks for? *)
Wanted(r, g) ==
  /\ g.cl = r.oid /\ g.pid = <<r.pid, 0>> /\ g.ntm = r.ntm
  /\ Near(g.lat, r.lat) /\ (Tiny(r.lat) \/ g.laneg = r.laneg)
  /\ Near(g.lon, r.lon) /\ (Tiny(r.lon) \/ g.loneg = r.loneg)
  /\ Len(g.liq) = 1 /\ g.liq[1][1] = 1 /\ r.liq \in {g.liq[1][3], g.liq[1][4]}

Unheard == <<>>
Handed(q, v) == Append(q, v)
Broken(v) == v \in {"before", "after"}
MayHandOver(q) == q = <<>> \/ Broken(q[Len(q)])
Has(q) == \E i \in 1..Len(q) : q[i] \in {"ok", "slow", "late", "after"}
(* it has said so, and in any case in time *)
Sure(q) == q # <<>> /\ q[Len(q)] \in {"ok", "slow"}

(* how may a generator end?  got: storage -> verdicts; shaky: storages whose connections broke, lost: with reports of others on them; excused: no receiver or no time *)
EndFault(fits, got, shaky, lost, code, excused) ==
  IF code = 0 THEN IF ~fits THEN "accepted what it cannot send"
                   ELSE IF \E s \in DOMAIN got : ~Has(got[s]) THEN "success without being stored" ELSE ""
  ELSE IF fits /\ ~excused /\ \A s \in DOMAIN got : s \notin lost /\ (Sure(got[s]) \/ (got[s] = <<>> /\ s \notin shaky))
       THEN IF \A s \in DOMAIN got : Sure(got[s]) THEN "failure although stored" ELSE "failure without a reason"
  ELSE ""
=============================================================================

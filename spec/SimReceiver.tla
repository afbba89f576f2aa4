------------------------------ MODULE SimReceiver ------------------------------
(***************************************************************************)
(* Random behaviours of MCReceiver, written out as the steps of the        *)
(* clients and the failures of the stores: the schedules that are replayed *)
(* against the real receiver.  Run with tlc -simulate.                     *)
(***************************************************************************)
EXTENDS MCReceiver, Json

CONSTANT Depth
VARIABLES ks, trail
svars == <<vars, ks, trail>>

SInit == /\ ks = [c \in Conns |-> [j \in 1..RandomElement(1..MaxPackets) |-> RandomElement(Kinds)]]
         /\ plan = [c \in Conns |-> PlanOf(ks[c], c)]
         /\ conn = [c \in Conns |-> Fresh(0) @@ [open |-> FALSE, got |-> FALSE]]
         /\ now = 0 /\ fails = 0 /\ srv = "run"
         /\ stored = [s \in Stores |-> <<>>] /\ refused = {} /\ accepted = {}
         /\ sentans = [c \in Conns |-> <<>>]
         /\ trail = <<>>

Note(a, c, n) == trail' = Append(trail, [a |-> a, c |-> c, n |-> n]) /\ UNCHANGED ks
Quietly(A) == A /\ UNCHANGED <<trail, ks>>
More == \E c \in Conns : conn[c].open => conn[c].fin = "no" /\ conn[c].sent < StreamLen(c)

SNext ==
  \/ \E c \in Conns :
       \/ Connect(c) /\ Note("connect", c, 0)
       \/ \E n \in {1, 2, 3, 5} : Send(c, n) /\ Note("send", c, n)
       \/ conn[c].sent = StreamLen(c) /\ HalfClose(c) /\ Note("half", c, 0)
       \/ TLCGet("level") % 7 = 0 /\ HalfClose(c) /\ Note("half", c, 0)
       \/ TLCGet("level") % 11 = 0 /\ Abort(c) /\ Note("abort", c, 0)
       \/ Receive(c) /\ Note("recv", c, 0)
       \/ Quietly(Server(c))
       \/ \E s \in Stores : SaveEnd(c, s, FALSE) /\ Note("fail", c, <<s, Id(c)[2], Id(c)[3]>>)
  \/ ~More /\ UNCHANGED svars

Emit == TLCGet("level") # Depth \/ PrintT("SCHEDULE " \o ToJson([kinds |-> [i \in 1..Cardinality(Conns) |-> ks[i]], trail |-> trail]))
=============================================================================

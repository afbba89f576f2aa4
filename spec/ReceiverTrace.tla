----------------------------- MODULE ReceiverTrace -----------------------------
(***************************************************************************)
(* Validates traces of the real receiver.  A scenario has the byte stream  *)
(* of every connection and the events that were observed, in order:        *)
(*   connect/refused c   send c n   sent c   half c   abort c              *)
(*   save s id rec       saveret id ok       (calls of the stores)         *)
(*   reply c b           tail c              (packets the client read)     *)
(*   closed c how        still c             (the client saw the end / did *)
(*                                            not see one in time)         *)
(*   flooded c  stale c (a client that does not read has sent all it can,  *)
(*                       its connection has not been reset since)          *)
(*   held n tasks       (connections the receiver process has open, tasks *)
(*                       it has more than at rest, when it had the time to *)
(*                       release what it does not need)                    *)
(*   stop   runret   noret (not in time)   died   end                      *)
(*   again (another server, without sessions, takes the place of the first *)
(*          one: clients come and go until it is stopped)                  *)
(* t is the time in ms.  The server's own steps are not observed; they are *)
(* taken as soon as possible (Settle), which permits all the server may do *)
(* because the observations only come later.                               *)
(*                                                                         *)
(* Focus names the aspects the property being checked speaks about.        *)
(***************************************************************************)
EXTENDS Meaning, Plus, Receiver, Json, IOUtils

Meta == JsonDeserialize(IOEnv.TRACE_META)
Scen == ndJsonDeserialize(IOEnv.TRACE)
Focus == ToSet(Meta.focus)
InFocus(x) == x \in Focus
AllStores == 1..Meta.stores
Nobody == <<0, 0>>
Slack == Meta.slack
Grace == Meta.grace

Plans == [i \in 1..Len(Scen) |-> [c \in 1..Len(Scen[i].streams) |-> PlanOfStream(Scen[i].streams[c])]]
Ignored == [i \in 1..Len(Scen) |-> ToSet(Scen[i].ignore)]
IgnoredTimes ==
  [i \in 1..Len(Scen) |->
     UNION { UNION { LET m == Plans[i][c][j].m IN
                     IF m.k # "data" THEN {} ELSE {m.recs[x].pos[1].ntm : x \in {y \in 1..Len(m.recs) : m.recs[y].pos # <<>>}}
                     : j \in 1..Len(Plans[i][c]) } : c \in Ignored[i] }]

-------------------------------------------------------------------------------
Start == Fresh(0) @@ [open |-> FALSE, log |-> <<>>, may |-> FALSE, seen |-> FALSE, ended |-> 0]

(* aspects out of focus: saves are not observed, answers not compared *)
Trim(k) == [k EXCEPT !.todo = SelectSeq(@, LAMBDA d : /\ (d.k = "save" => InFocus("saves"))
                                                      /\ (d.k # "save" => InFocus("acks"))
                                                      /\ (d.k = "result" => InFocus("result")))]
RECURSIVE Settle(_, _)
Settle(k, p) ==
  IF CanTake(k, p) THEN Settle(Trim(Taken(k, p)), p)
  ELSE IF CanStored(k) THEN Settle(Stored(k), p)
  ELSE IF CanAnswer(k) THEN Settle(Answered(k), p)
  ELSE k

-------------------------------------------------------------------------------
(* when the first byte after the first o bytes of the stream was sent *)
TimeOf(k, o) == LET i == CHOOSE j \in 1..Len(k.log) : k.log[j][1] > o /\ (j = 1 \/ k.log[j - 1][1] <= o) IN k.log[i][2]

SaveFaults(k, p, ev) ==
  LET d == Head(k.todo) IN
       (IF InFocus("rec") /\ ~SameRec(d.rec, ev.rec) THEN {"record"} ELSE {})
  \cup (IF InFocus("client") /\ d.cl # ev.rec.cl THEN {"client"} ELSE {})
  \cup (IF InFocus("rec") /\ ~(/\ TimeOf(k, p[k.at - 1].from) \div 1000 <= ev.rec.rcv
                               /\ ev.rec.rcv <= ev.t \div 1000) THEN {"received"} ELSE {})

(* comparing an answer *)
Flat(recs) == FoldLeft(LAMBDA acc, r : acc \o [i \in 1..Len(r.subs) |-> r.subs[i].v], <<>>, recs)

FormFaults(d) == IF InFocus("form") /\ ~(d.v.PRV = 1 /\ d.v.RTE = "0" /\ d.v.ENA = "00") THEN {"form"} ELSE {}

AckFaults(a, v) ==
  LET subs == IF v.body.sdr THEN Flat(v.body.recs) ELSE <<>>
      conf == \A i \in 1..Len(subs) : subs[i].k = "resp"
  IN   (IF v.body.RPID # a.pid THEN {"pid"} ELSE {})
  \cup (IF InFocus("code") /\ v.body.RES \notin a.codes THEN {"code"} ELSE {})
  \cup (IF InFocus("crn") /\ ~(conf /\ [i \in 1..Len(subs) |-> subs[i].CRN] = [i \in 1..Len(a.confs) |-> a.confs[i].crn])
        THEN {"confirmations"} ELSE {})
  \cup (IF InFocus("status") /\ conf /\ Len(subs) = Len(a.confs)
           /\ \E i \in 1..Len(subs) : (subs[i].RST # StatusOk) # (a.confs[i].st # StatusOk) THEN {"status"} ELSE {})
  \cup (IF InFocus("form") /\ \E i \in 1..Len(v.body.recs) :
             ~(v.body.recs[i].SST \in a.svcs /\ v.body.recs[i].RST = v.body.recs[i].SST) THEN {"service"} ELSE {})

ResultFaults(v) ==
  LET r == v.body.recs IN
  IF /\ Len(r) = 1 /\ Len(r[1].subs) = 1 /\ r[1].subs[1].v.k = "result" /\ r[1].subs[1].v.RCD = 0
     /\ r[1].SST = 1 /\ r[1].RST = 1 THEN {} ELSE {"result"}

ReplyFaults(k, b) ==
  LET d == DecPkg(b, [k |-> "none"]) IN
  IF ~d.ok THEN {"malformed"}
  ELSE IF k.out = <<>> THEN {"unasked"}
  ELSE LET a == Head(k.out) IN
       FormFaults(d) \cup
       IF a.k = "ack" THEN IF d.v.PT = 0 THEN AckFaults(a, d.v) ELSE {"kind"}
       ELSE IF d.v.PT = 1 THEN ResultFaults(d.v) ELSE {"kind"}

(* answers the property does not speak about *)
SkipReply(ev) == ~InFocus("acks") \/ (~InFocus("result") /\ Len(ev.b) >= 10 /\ ev.b[10] = 1)

-------------------------------------------------------------------------------
VARIABLES sc, l, st
(* st: c: connections; busy: calls of stores [id, c, s]; srv; fault *)

Ev == Scen[sc].events[l + 1]
P(c) == Plans[sc][c]
TTL == Scen[sc].ttl

Ok(s) == [s EXCEPT !.fault = {}]
Bad(s, f) == [s EXCEPT !.fault = f]
SetC(s, c, k) == [s EXCEPT !.c[c] = k]

(* silence long enough for the server to close *)
Quiet(k, t) == TTL > 0 /\ t - k.since >= TTL - Slack

(* does a send that makes it n bytes complete a packet, or the fixed part of a header? *)
Milestone(p, from, n) ==
  \E j \in 1..(Len(p) + 1) :
     LET o == IF j = 1 THEN 0 ELSE p[j - 1].n
         e == IF j <= Len(p) THEN p[j].n ELSE 0
     IN (from < o + Prefix /\ n >= o + Prefix) \/ (e > 0 /\ from < e /\ n >= e)

DoSend(s, ev) ==
  LET k == s.c[ev.c]
      k1 == [k EXCEPT !.sent = @ + ev.n, !.may = @ \/ Quiet(k, ev.t), !.log = Append(@, <<k.sent + ev.n, ev.t>>),
                      !.since = IF Milestone(P(ev.c), k.sent, k.sent + ev.n) THEN ev.t ELSE @]
  IN SetC(s, ev.c, Settle(k1, P(ev.c)))

(* connections whose next duty is to hand a record to store x *)
Takers(s, x) == {c \in 1..Len(s.c) : CanStart(s.c[c], x)}

DoSave(s, ev) ==
  LET cand == Takers(s, ev.s)
      mine == {c \in cand : Head(s.c[c].todo).rec.ntm = ev.rec.ntm}
      all == IF mine # {} THEN mine ELSE IF InFocus("rec") \/ Cardinality(cand) = 1 THEN cand ELSE {}
      pick == IF all = {} THEN 0 ELSE CHOOSE c \in all : TRUE
  IN IF pick = 0 THEN Bad(s, {"unexpected save"})
     ELSE LET k == s.c[pick]
              f == SaveFaults(k, P(pick), ev) \cup (IF mine = {} /\ ~InFocus("rec") /\ ev.known THEN {"out of order"} ELSE {})
              k1 == Started(k, ev.s)
          IN IF f # {} THEN Bad(s, f)
             ELSE [SetC(s, pick, k1) EXCEPT !.busy = @ \cup {[id |-> ev.id, c |-> pick, s |-> ev.s]}]

DoSaveRet(s, ev) ==
  LET bs == {b \in s.busy : b.id = ev.id} IN
  IF bs = {} THEN s                 \* a call that was not in focus
  ELSE LET b == CHOOSE x \in bs : TRUE
           k == Finished(s.c[b.c], b.s, ev.ok)
       IN [SetC(s, b.c, Settle(k, P(b.c))) EXCEPT !.busy = @ \ bs]

DoReply(s, ev) ==
  LET k == s.c[ev.c]  f == ReplyFaults(k, ev.b) IN
  IF f # {} THEN Bad(s, f) ELSE SetC(s, ev.c, Read(k))

(* lenient: bytes after the end of EGTS make TCP reset the connection, which may destroy answers on their way *)
Lenient(k, ev) == k.fin = "abort" \/ k.may \/ (ev.how = "reset" /\ Foreign(k, P(ev.c)))

DoClosed(s, ev) ==
  LET k == s.c[ev.c]
      why == \/ Foreign(k, P(ev.c)) \/ Ended(k, P(ev.c)) \/ k.fin = "abort"
             \/ k.may \/ Quiet(k, ev.t)
      f ==   (IF InFocus("close") /\ ~why THEN {"closed"} ELSE {})
        \cup (IF InFocus("acks") /\ k.out # <<>> /\ ~Lenient(k, ev) /\ ~Quiet(k, ev.t) THEN {"answers missing"} ELSE {})
        \cup (IF InFocus("saves") /\ k.todo # <<>> /\ k.fin # "abort" /\ ~k.may /\ ~Quiet(k, ev.t) THEN {"unsaved"} ELSE {})
  IN IF f # {} THEN Bad(s, f) ELSE SetC(s, ev.c, [k EXCEPT !.seen = TRUE, !.out = <<>>, !.may = TRUE])

(* what the receiver holds: connections of clients that are there, and work for those *)
Live(s) == {c \in 1..Len(s.c) : s.c[c].open /\ s.c[c].fin = "no" /\ ~s.c[c].seen}
HeldFaults(s, ev) ==
  LET gone == {c \in 1..Len(s.c) : s.c[c].open} \ Live(s)
      late == \A c \in gone : ev.t - s.c[c].ended > TTL + Grace
      n == Cardinality(Live(s))
  IN   (IF late /\ ev.n > n THEN {"connection not released"} ELSE {})
  \cup (IF late /\ ev.tasks > 10 + 4 * n /\ 2 * ev.tasks > Cardinality(gone) THEN {"work not released"} ELSE {})

(* the client still has an open connection at ev.t *)
DoStill(s, ev) ==
  LET k == s.c[ev.c]
      must == (TTL > 0 /\ ev.t - k.ended > TTL + Grace) \/ (Foreign(k, P(ev.c)) /\ k.sent >= P(ev.c)[k.at].from + Prefix /\ ev.t - k.ended > Grace)
              \/ (Ended(k, P(ev.c)) /\ ev.t - k.ended > TTL + Grace)
  IN IF InFocus("close") /\ must /\ ~k.seen THEN Bad(s, {"not closed"}) ELSE s

EndFaults(s) ==
  UNION { LET k == s.c[c] IN
          IF ~k.open \/ k.fin = "abort" \/ k.may THEN {}
          ELSE   (IF InFocus("saves") /\ k.todo # <<>> THEN {"unsaved"} ELSE {})
            \cup (IF InFocus("acks") /\ k.out # <<>> THEN {"unanswered"} ELSE {})
          : c \in (1..Len(s.c)) \ Ignored[sc] }
  \cup (IF s.srv = "stopped" /\ InFocus("stop") THEN {"Run did not return"} ELSE {})

Skip(ev) ==
  \/ "c" \in DOMAIN ev /\ ev.c \in Ignored[sc] /\ ev.e \notin {"flooded", "stale"}
  \/ ev.e = "held" /\ ~InFocus("held")
  \/ ev.e = "save" /\ (~InFocus("saves") \/ ev.rec.ntm \in IgnoredTimes[sc])
  \/ ev.e = "reply" /\ SkipReply(ev)

Apply(s, ev) ==
  IF Skip(ev) THEN s
  ELSE CASE ev.e = "connect" -> IF InFocus("stop") /\ s.srv = "returned" THEN Bad(s, {"accepted after Stop"})
                                ELSE SetC(s, ev.c, [Start EXCEPT !.open = TRUE, !.since = ev.t, !.ended = ev.t])
         [] ev.e = "refused" -> IF s.srv = "run" THEN Bad(s, {"refused"}) ELSE s
         [] ev.e = "send" -> DoSend(s, ev)
         [] ev.e = "sent" -> [s EXCEPT !.c[ev.c].ended = ev.t]
         [] ev.e = "half" -> SetC(s, ev.c, Settle([s.c[ev.c] EXCEPT !.fin = "half", !.ended = ev.t], P(ev.c)))
         [] ev.e = "abort" -> [s EXCEPT !.c[ev.c].fin = "abort", !.c[ev.c].ended = ev.t]
         [] ev.e = "save" -> DoSave(s, ev)
         [] ev.e = "saveret" -> DoSaveRet(s, ev)
         [] ev.e = "reply" -> DoReply(s, ev)
         [] ev.e = "tail" -> IF InFocus("acks") /\ ~Lenient(s.c[ev.c], [how |-> "reset", c |-> ev.c]) THEN Bad(s, {"incomplete answer"}) ELSE s
         [] ev.e = "closed" -> DoClosed(s, ev)
         [] ev.e = "still" -> DoStill(s, ev)
         [] ev.e = "flooded" -> [s EXCEPT !.c[ev.c].ended = ev.t]
         [] ev.e = "stale" -> IF InFocus("close") /\ TTL > 0 /\ ev.t - s.c[ev.c].ended > TTL + Grace THEN Bad(s, {"not closed"}) ELSE s
         [] ev.e = "held" -> LET f == HeldFaults(s, ev) IN IF f # {} THEN Bad(s, f) ELSE s
         [] ev.e = "again" -> [s EXCEPT !.srv = "run"]
         [] ev.e = "stop" -> [s EXCEPT !.srv = IF @ = "run" THEN "stopped" ELSE @]
         [] ev.e = "runret" -> IF s.srv = "stopped" THEN [s EXCEPT !.srv = "returned"]
                               ELSE IF s.srv = "run" THEN Bad(s, {"Run returned"}) ELSE s
         [] ev.e = "noret" -> IF InFocus("stop") /\ s.srv = "stopped" THEN Bad(s, {"Run did not return"}) ELSE s
         [] ev.e = "died" -> Bad(s, {"the receiver died"})
         [] ev.e = "end" -> LET f == EndFaults(s) IN IF f # {} THEN Bad(s, f) ELSE s

Init == /\ sc \in 1..Len(Scen) /\ l = 0
        /\ st = [c |-> [c \in 1..Len(Scen[sc].streams) |-> Start], busy |-> {}, srv |-> "run", fault |-> {}]
Next == /\ l < Len(Scen[sc].events) /\ st.fault = {}
        /\ l' = l + 1 /\ UNCHANGED sc
        /\ st' = Apply(st, Ev)

Conforms == st.fault = {}
Where == [sc |-> sc, l |-> l, fault |-> st.fault]
=============================================================================

------------------------------ MODULE MCReceiver ------------------------------
(***************************************************************************)
(* The receiver with abstract packets of two bytes, for model checking and *)
(* for generating schedules.  Two clients, each with any plan of up to     *)
(* MaxPackets packets of the given kinds; any segmentation, half-closing   *)
(* or abort at any byte, any store failing at any time; time passes in     *)
(* ticks.  Deaf clients may never read; Room answers fit on the way.  The  *)
(* server can hold Limit connections at a time (its descriptors); clients  *)
(* that come while it is full wait.  Leaving: clients that surely end      *)
(* their side some time.                                                   *)
(***************************************************************************)
EXTENDS Receiver, TLC

Nobody == <<>>
CONSTANTS Conns, Kinds, MaxPackets, TTL, MaxTime, MaxFails, CanStop, CanAbort, Deaf, Room, Limit, Leaving

VARIABLES plan,     \* per connection: what its client sends, fixed at the start
          conn,     \* per connection: "none" or its state
          now, fails,
          srv,      \* run (accepting), stopped, returned
          \* histories, only written
          stored,   \* per store: the sequence of <<conn, packet, record, client>> it was handed
          refused,  \* set of <<store, conn, packet, record>>
          accepted,
          sentans   \* per connection: the answers sent

vars == <<plan, conn, now, fails, srv, stored, refused, accepted, sentans>>

-------------------------------------------------------------------------------
(* abstract packets; j is the position in the plan and serves as packet identifier *)
R(j, i, ids, pos, conf) == [crn |-> 10 * j + i, svc |-> 2, conf |-> conf, ids |-> ids,
                            pos |-> IF pos THEN << <<j, i>> >> ELSE <<>>]
Data(j, auth, recs) == [k |-> "data", pid |-> j, auth |-> auth, recs |-> recs]
MeaningOf(kind, c, j) ==
  CASE kind = "pos"    -> Data(j, FALSE, << R(j, 1, <<>>, TRUE, FALSE) >>)
    [] kind = "oid"    -> Data(j, FALSE, << R(j, 1, << <<c, j>> >>, TRUE, FALSE), R(j, 2, <<>>, TRUE, FALSE) >>)
    [] kind = "ident"  -> Data(j, TRUE, << R(j, 1, << <<c, j, 0>>, <<c, j, 1>> >>, FALSE, FALSE), R(j, 2, <<>>, TRUE, FALSE) >>)
    [] kind = "auth"   -> Data(j, TRUE, << R(j, 1, <<>>, FALSE, FALSE) >>)
    [] kind = "conf"   -> Data(j, FALSE, << R(j, 1, <<>>, FALSE, TRUE) >>)
    [] kind = "mixed"  -> Data(j, FALSE, << R(j, 1, <<>>, TRUE, TRUE), R(j, 2, <<>>, FALSE, FALSE), R(j, 3, <<>>, TRUE, FALSE) >>)
    [] kind = "bad"    -> [k |-> "bad", pid |-> j, codes |-> {137}]
    [] kind = "resp"   -> [k |-> "resp"]
    [] kind = "foreign" -> [k |-> "foreign"]

KindSeqs == UNION { [1..n -> Kinds] : n \in 0..MaxPackets }
PlanOf(ks, c) == [j \in 1..Len(ks) |-> [n |-> 2 * j, m |-> MeaningOf(ks[j], c, j)]]
StreamLen(c) == 2 * Len(plan[c])

-------------------------------------------------------------------------------
Init == /\ plan \in [Conns -> UNION { {PlanOf(ks, c) : ks \in KindSeqs} : c \in Conns }]
        /\ \A c \in Conns : \E ks \in KindSeqs : plan[c] = PlanOf(ks, c)
        /\ conn = [c \in Conns |-> Fresh(0) @@ [open |-> FALSE, got |-> FALSE]]
        /\ now = 0 /\ fails = 0 /\ srv = "run"
        /\ stored = [s \in Stores |-> <<>>] /\ refused = {} /\ accepted = {}
        /\ sentans = [c \in Conns |-> <<>>]

hist == <<stored, refused, accepted, sentans>>
Upd(c, k) == conn' = [conn EXCEPT ![c] = k]
Same == UNCHANGED <<plan, now, fails, srv, stored, refused, accepted, sentans>>

\* the connections that occupy the server
Held == {c \in Conns : conn[c].got /\ ~conn[c].shut}
Free == Cardinality(Held) < Limit
Connect(c) == /\ ~conn[c].open /\ srv = "run"
              /\ Upd(c, [conn[c] EXCEPT !.open = TRUE, !.since = now, !.got = Free]) /\ Same
Send(c, n) == /\ conn[c].open /\ conn[c].fin = "no" /\ conn[c].sent + n <= StreamLen(c)
              /\ Upd(c, Sending(conn[c], n, now)) /\ Same
HalfClose(c) == /\ conn[c].open /\ conn[c].fin = "no" /\ Upd(c, [conn[c] EXCEPT !.fin = "half"]) /\ Same
Abort(c) == /\ CanAbort /\ conn[c].open /\ conn[c].fin # "abort"
            /\ Upd(c, [conn[c] EXCEPT !.fin = "abort"]) /\ Same

(* silence counts from the last step of the server: its own work is not the client's silence *)
Turn(k) == [k EXCEPT !.since = now]
Accept(c) == /\ conn[c].open /\ ~conn[c].got /\ ~conn[c].shut /\ Free /\ srv # "returned"
             /\ Upd(c, Turn([conn[c] EXCEPT !.got = TRUE])) /\ Same
\* whoever still waits when the server stops is turned away
TurnAway(c) == /\ conn[c].open /\ ~conn[c].got /\ ~conn[c].shut /\ srv = "returned" /\ Upd(c, Closed(conn[c])) /\ Same
Take(c) == conn[c].got /\ CanTake(conn[c], plan[c]) /\ Upd(c, Turn(Taken(conn[c], plan[c]))) /\ Same
Id(c) == LET d == Head(conn[c].todo) IN <<c, conn[c].at - 1, d.i>>
SaveStart(c, s) == /\ CanStart(conn[c], s) /\ Upd(c, Started(conn[c], s))
                   /\ stored' = [stored EXCEPT ![s] = Append(@, <<Id(c), Head(conn[c].todo).cl>>)]
                   /\ UNCHANGED <<plan, now, fails, srv, refused, accepted, sentans>>
SaveEnd(c, s, ok) == /\ CanFinish(conn[c], s) /\ Upd(c, Finished(conn[c], s, ok))
                     /\ ok \/ fails < MaxFails
                     /\ fails' = IF ok THEN fails ELSE fails + 1
                     /\ refused' = IF ok THEN refused ELSE refused \cup {<<s, Id(c)>>}
                     /\ accepted' = IF ok THEN accepted \cup {<<s, Id(c)>>} ELSE accepted
                     /\ UNCHANGED <<plan, now, srv, stored, sentans>>
Done(c) == CanStored(conn[c]) /\ Upd(c, Turn(Stored(conn[c]))) /\ Same
Answer(c) == /\ CanAnswer(conn[c]) /\ ~Stuck(conn[c], Room) /\ Upd(c, Turn(Answered(conn[c])))
             /\ sentans' = [sentans EXCEPT ![c] = Append(@, <<conn[c].at - 1, AnswerOf(conn[c])>>)]
             /\ UNCHANGED <<plan, now, fails, srv, stored, refused, accepted>>
Receive(c) == CanRead(conn[c]) /\ Upd(c, Read(conn[c])) /\ Same
Close(c) == /\ conn[c].got /\ CanClose(conn[c], plan[c], Room, now, TTL)
            /\ Upd(c, Closed(conn[c])) /\ Same

(* time may not pass while the server has to close a silent connection *)
Overdue(c) == conn[c].got /\ (Silent(conn[c], plan[c], now - 1, TTL) \/ Stalled(conn[c], Room, now - 1, TTL))
Tick == /\ now < MaxTime /\ \A c \in Conns : ~Overdue(c)
        /\ now' = now + 1
        /\ UNCHANGED <<plan, conn, fails, srv, stored, refused, accepted, sentans>>
Stop == /\ CanStop /\ srv = "run" /\ srv' = "stopped"
        /\ UNCHANGED <<plan, conn, now, fails, stored, refused, accepted, sentans>>
RunReturns == /\ srv = "stopped" /\ srv' = "returned"
              /\ UNCHANGED <<plan, conn, now, fails, stored, refused, accepted, sentans>>

Server(c) == Accept(c) \/ TurnAway(c) \/ Take(c) \/ Done(c) \/ Answer(c) \/ Close(c)
             \/ \E s \in Stores : SaveStart(c, s) \/ SaveEnd(c, s, TRUE)
Client(c) == Connect(c) \/ Send(c, 1) \/ Send(c, 3) \/ HalfClose(c) \/ Abort(c) \/ Receive(c)
Next == \/ \E c \in Conns : Server(c) \/ Client(c) \/ \E s \in Stores : SaveEnd(c, s, FALSE)
        \/ Tick \/ Stop \/ RunReturns

Spec == Init /\ [][Next]_vars /\ \A c \in Conns : WF_vars(Server(c)) /\ (c \notin Deaf => WF_vars(Receive(c))) /\ (c \in Leaving => WF_vars(HalfClose(c))) /\ WF_vars(RunReturns) /\ WF_vars(Tick)

-------------------------------------------------------------------------------
(* The properties, stated on the plan and the histories without the server's state. *)

(* packets of c that have arrived completely, up to anything foreign *)
Upto(c) == CHOOSE n \in 0..Len(plan[c]) :
             /\ \A j \in 1..n : plan[c][j].n <= conn[c].sent /\ plan[c][j].m.k # "foreign"
             /\ n < Len(plan[c]) => (plan[c][n + 1].n > conn[c].sent \/ plan[c][n + 1].m.k = "foreign")
Answers(c, j) ==
  LET m == plan[c][j].m  unconf == {i \in 1..(IF m.k = "data" THEN Len(m.recs) ELSE 0) : ~m.recs[i].conf} IN
  CASE m.k = "bad" -> << <<j, "ack">> >>
    [] m.k = "data" /\ unconf # {} -> IF m.auth THEN << <<j, "ack">>, <<j, "result">> >> ELSE << <<j, "ack">> >>
    [] OTHER -> <<>>
RECURSIVE Expected(_, _)
Expected(c, n) == IF n = 0 THEN <<>> ELSE Expected(c, n - 1) \o Answers(c, n)
Shape(s) == [i \in 1..Len(s) |-> <<s[i][1], s[i][2].k>>]

AnswersInOrder == \A c \in Conns : IsPrefix(Shape(sentans[c]), Expected(c, Upto(c)))       \* C01 C02 C07 C08 C09 C27

EveryRecordOnce ==                                                                          \* C02
  \A c \in Conns : \A i \in 1..Len(sentans[c]) :
    LET j == sentans[c][i][1]  a == sentans[c][i][2]  m == plan[c][j].m IN
    a.k = "ack" =>
      /\ a.pid = m.pid
      /\ m.k = "bad" => a.confs = <<>> /\ a.codes \subseteq (1..255)
      /\ m.k = "data" => /\ a.codes = {0}
                         /\ [x \in 1..Len(a.confs) |-> a.confs[x].crn] =
                            SelectSeq([x \in 1..Len(m.recs) |-> m.recs[x].crn], LAMBDA n : \E x \in 1..Len(m.recs) : m.recs[x].crn = n /\ ~m.recs[x].conf)

ConfirmedIfStored ==                                                                        \* C03
  \A c \in Conns : \A i \in 1..Len(sentans[c]) :
    LET j == sentans[c][i][1]  a == sentans[c][i][2] IN
    a.k = "ack" => \A x \in 1..Len(a.confs) :
      LET r == plan[c][j].m.recs[a.confs[x].i] IN
      IF r.pos = <<>> THEN a.confs[x].st = StatusOk
      ELSE IF a.confs[x].st = StatusOk THEN \A s \in Stores : <<s, <<c, j, a.confs[x].i>>>> \in accepted
      ELSE \E s \in Stores : <<s, <<c, j, a.confs[x].i>>>> \in refused

(* the positions in the first n packets of c, with the identifier last announced before or in the record *)
RECURSIVE Positions(_, _)
RecIds(c, j, i) == LET m == plan[c][j].m IN IF m.k = "data" /\ i <= Len(m.recs) THEN m.recs[i].ids ELSE <<>>
Announced(c, j, i) ==
  LET before == {<<q, x, y>> \in (1..j) \X (1..3) \X (1..2) : (q < j \/ x <= i) /\ y <= Len(RecIds(c, q, x))}
      later(a, b) == a[1] > b[1] \/ (a[1] = b[1] /\ (a[2] > b[2] \/ (a[2] = b[2] /\ a[3] >= b[3])))
  IN IF before = {} THEN NoClient
     ELSE LET b == CHOOSE a \in before : \A z \in before : later(a, z) IN RecIds(c, b[1], b[2])[b[3]]
Positions(c, n) ==
  IF n = 0 THEN <<>>
  ELSE LET m == plan[c][n].m
           mine == IF m.k # "data" THEN <<>>
                   ELSE LET is == SelectSeq([i \in 1..Len(m.recs) |-> i], LAMBDA i : m.recs[i].pos # <<>>)
                        IN [x \in 1..Len(is) |-> << <<c, n, is[x]>>, Announced(c, n, is[x])>>]
       IN Positions(c, n - 1) \o mine

StoredInOrder ==                                                                            \* C04 C06
  \A s \in Stores, c \in Conns :
    IsPrefix(SelectSeq(stored[s], LAMBDA x : x[1][1] = c), Positions(c, Upto(c)))

(* closed only for a reason the client gave, or silence *)
ClosedForReason ==                                                                          \* C09 C11
  \A c \in Conns : conn[c].shut =>
    \/ conn[c].fin # "no"
    \/ ~conn[c].got /\ srv = "returned"
    \/ Upto(c) < Len(plan[c]) /\ plan[c][Upto(c) + 1].m.k = "foreign"
    \/ TTL > 0 /\ now - conn[c].since >= TTL       \* silent, or deaf

ClosedInTime == \A c \in Conns :                                                            \* C11
    (conn[c].got /\ ~conn[c].shut /\ (Waiting(conn[c], plan[c]) \/ Stuck(conn[c], Room)) /\ TTL > 0) => now - conn[c].since <= TTL + 1

WithinLimit == Cardinality(Held) <= Limit                                                   \* C28
(* nothing is left of a connection that is over *)
NothingLeft == \A c \in Conns : conn[c].shut => conn[c].todo = <<>> /\ c \notin Held           \* C28

Inv == WithinLimit /\ NothingLeft /\ AnswersInOrder /\ EveryRecordOnce /\ ConfirmedIfStored /\ StoredInOrder /\ ClosedForReason /\ ClosedInTime

(* everything that arrived is answered unless the client is gone; C10: whatever the others do *)
AllAnswered == \A c \in Conns \ Deaf :
   (conn[c].open /\ conn[c].fin # "abort") ~> (conn[c].fin = "abort" \/ (~conn[c].got /\ srv # "run") \/ Shape(sentans[c]) = Expected(c, Upto(c)))
EndedCloses == \A c \in (IF TTL > 0 THEN Conns ELSE Conns \ Deaf) : (conn[c].open /\ conn[c].fin # "no") ~> conn[c].shut
ForeignCloses == \A c \in (IF TTL > 0 THEN Conns ELSE Conns \ Deaf) :
   (conn[c].open /\ Upto(c) < Len(plan[c]) /\ plan[c][Upto(c) + 1].m.k = "foreign" /\ plan[c][Upto(c) + 1].n <= conn[c].sent) ~> conn[c].shut
(* C28: whoever waits for room gets it when others leave *)
Served == \A c \in Conns : (conn[c].open /\ ~conn[c].got) ~> (conn[c].got \/ srv # "run")
StopReturns == (srv = "stopped") ~> (srv = "returned")
=============================================================================

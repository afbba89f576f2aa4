------------------------------- MODULE Receiver -------------------------------
(***************************************************************************)
(* The receiver: a server that accepts TCP connections, recognises EGTS    *)
(* packets in the byte stream of each, hands every position to all stores, *)
(* and answers.                                                            *)
(*                                                                         *)
(* What a client sends on a connection is a fixed byte stream, given here  *)
(* as a plan: the sequence of the packets in it.  A plan item is           *)
(*    [n |-> how many bytes of the stream must have arrived for it,        *)
(*     m |-> its meaning]                                                  *)
(* and a meaning is one of                                                 *)
(*    [k |-> "bad", pid, codes]     damaged; codes: results naming a fault *)
(*    [k |-> "resp"]                a response packet                      *)
(*    [k |-> "data", pid, auth, recs]                                      *)
(*         auth: asks for authorisation; recs: its records                 *)
(*         [crn, svc, conf, ids, pos]: number, service, whether it is      *)
(*         itself a confirmation, the identifiers it announces in order,   *)
(*         and <<>> or << its position >>                                  *)
(*    [k |-> "foreign"]             not EGTS: nothing comes after it       *)
(* Segmentation is thus nothing but the sizes of the Send steps.           *)
(*                                                                         *)
(* The state of a connection and the steps of the server on it are given   *)
(* as functions of the connection alone: that is how connections are       *)
(* independent.  Modules MCReceiver (model checking) and ReceiverTrace     *)
(* (traces of the real server) share them.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS Stores,      \* the configured stores
          NoClient,    \* the client of records nobody announced one for
          StatusOk, StatusFailed

-------------------------------------------------------------------------------
(* a connection as the server sees it *)
Fresh(now) ==
  [ sent |-> 0,           \* bytes the client has sent
    fin |-> "no",         \* the client's side: no, half (closed for sending), abort
    at |-> 1,             \* the next item of the plan
    cl |-> NoClient,      \* the identifier in force
    todo |-> <<>>,        \* what is left to do for the packet in hand
    bad |-> {},           \* records of it that some store refused
    out |-> <<>>,         \* answers sent that the client has not read
    shut |-> FALSE,       \* closed by the server
    since |-> now ]       \* when it was last active, see Active

LastOr(s, d) == IF s = <<>> THEN d ELSE s[Len(s)]

(* the positions to store for a packet, and the identifier in force after it *)
Saves(m, cl) ==
  FoldLeft(LAMBDA acc, i :
                 LET c == LastOr(m.recs[i].ids, acc.cl) IN
                 [cl |-> c,
                  s |-> IF m.recs[i].pos = <<>> THEN acc.s
                        ELSE Append(acc.s, [k |-> "save", i |-> i, rec |-> m.recs[i].pos[1], cl |-> c,
                                            left |-> Stores, busy |-> {}, failed |-> FALSE])],
               [cl |-> cl, s |-> <<>>], [i \in 1..Len(m.recs) |-> i])

Confs(m) == SelectSeq([i \in 1..Len(m.recs) |-> [crn |-> m.recs[i].crn, i |-> i, conf |-> m.recs[i].conf]],
                      LAMBDA x : ~x.conf)
Svcs(m) == {m.recs[i].svc : i \in 1..Len(m.recs)}

(* what has to be done for a packet, in order *)
Duties(m, cl) ==
  CASE m.k = "bad" -> << [k |-> "ack", pid |-> m.pid, codes |-> m.codes, confs |-> <<>>, svcs |-> {}] >>
    [] m.k = "resp" -> <<>>
    [] m.k = "data" ->
         Saves(m, cl).s
         \o (IF Confs(m) = <<>> THEN <<>>
             ELSE << [k |-> "ack", pid |-> m.pid, codes |-> {0}, confs |-> Confs(m), svcs |-> Svcs(m)] >>)
         \o (IF m.auth /\ Confs(m) # <<>> THEN << [k |-> "result"] >> ELSE <<>>)

-------------------------------------------------------------------------------
(* steps of the server on one connection k with plan p *)
Arrived(k, p) == k.at <= Len(p) /\ p[k.at].n <= k.sent

CanTake(k, p) == ~k.shut /\ k.todo = <<>> /\ Arrived(k, p) /\ p[k.at].m.k # "foreign"
Taken(k, p) ==
  LET m == p[k.at].m IN
  [k EXCEPT !.at = @ + 1, !.bad = {}, !.todo = Duties(m, k.cl),
            !.cl = IF m.k = "data" THEN Saves(m, k.cl).cl ELSE @]

Head1(k) == ~k.shut /\ k.todo # <<>>
CanStart(k, s) == Head1(k) /\ Head(k.todo).k = "save" /\ s \in Head(k.todo).left
Started(k, s) == [k EXCEPT !.todo[1].left = @ \ {s}, !.todo[1].busy = @ \cup {s}]

CanFinish(k, s) == Head1(k) /\ Head(k.todo).k = "save" /\ s \in Head(k.todo).busy
Finished(k, s, ok) == [k EXCEPT !.todo[1].busy = @ \ {s}, !.todo[1].failed = @ \/ ~ok]

CanStored(k) == Head1(k) /\ Head(k.todo).k = "save" /\ Head(k.todo).left = {} /\ Head(k.todo).busy = {}
Stored(k) == LET d == Head(k.todo) IN
  [k EXCEPT !.todo = Tail(@), !.bad = IF d.failed THEN @ \cup {d.i} ELSE @]

(* the answer with the statuses that are known now *)
AnswerOf(k) == LET d == Head(k.todo) IN
  IF d.k = "result" THEN d
  ELSE [d EXCEPT !.confs = [j \in 1..Len(@) |-> [crn |-> @[j].crn, i |-> @[j].i,
                                                 st |-> IF @[j].i \in k.bad THEN StatusFailed ELSE StatusOk]]]
CanAnswer(k) == Head1(k) /\ Head(k.todo).k \in {"ack", "result"}
Answered(k) == [k EXCEPT !.todo = Tail(@), !.out = Append(@, AnswerOf(k))]

Closed(k) == [k EXCEPT !.shut = TRUE, !.todo = <<>>]

(* nothing is left to do on it *)
Waiting(k, p) == ~k.shut /\ k.todo = <<>> /\ ~Arrived(k, p)
Foreign(k, p) == ~k.shut /\ k.todo = <<>> /\ Arrived(k, p) /\ p[k.at].m.k = "foreign"
Ended(k, p) == Waiting(k, p) /\ k.fin # "no"
Silent(k, p, now, ttl) == Waiting(k, p) /\ ttl > 0 /\ now - k.since >= ttl

(* an answer cannot be sent because the client has not read room of them: what is on the way is bounded *)
Stuck(k, room) == CanAnswer(k) /\ Len(k.out) >= room /\ k.fin # "abort"
Stalled(k, room, now, ttl) == Stuck(k, room) /\ ttl > 0 /\ now - k.since >= ttl

(* when the server closes a connection of its own accord *)
CanClose(k, p, room, now, ttl) ==
  Foreign(k, p) \/ Ended(k, p) \/ Silent(k, p, now, ttl) \/ Stalled(k, room, now, ttl) \/ (k.fin = "abort" /\ ~k.shut)

-------------------------------------------------------------------------------
(* steps of the client *)
Sending(k, n, now) == [k EXCEPT !.sent = @ + n, !.since = IF k.shut THEN @ ELSE now]
CanRead(k) == k.out # <<>> /\ k.fin # "abort"
Read(k) == [k EXCEPT !.out = Tail(@)]
=============================================================================

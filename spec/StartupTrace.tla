----------------------------- MODULE StartupTrace -----------------------------
(***************************************************************************)
(* Validates runs of the real receiver.  A run has the configuration, the  *)
(* packets that were sent on one connection, and the events:               *)
(*   listening          the configured address answers                     *)
(*   other ok           another address of this machine answers (or not)   *)
(*   msg s place v rec  storage s (0: the log) was handed a record         *)
(*   reply b, noreply   the answer to the next packet                      *)
(*   idle ms closed     how the connection ended when nothing more came    *)
(*   exit code, running, notended, deaf    how the program fared           *)
(*   lines level n      how many log lines there are of a level            *)
(***************************************************************************)
EXTENDS Meaning, Plus, Connector, Startup, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l, st
R == Runs[sc]
Ev == R.events[l + 1]
Bad(s, f) == [s EXCEPT !.fault = f]

NStores == Len(R.stores)
Bk(i) == [R.stores[i].backend EXCEPT !.addresses = ToSet(@)]
Condition(i) == IF R.stores[i].name \notin Kinds THEN "unknown"
                ELSE IF InitOk(R.stores[i].name, R.stores[i].settings, Bk(i)) THEN "ok" ELSE "fails"
Name(i) == ToString(i)
Stores == [n \in {Name(i) : i \in 1..NStores} |-> Condition(CHOOSE i \in 1..NStores : Name(i) = n)]
Starts == Reads(R.file) /\ ~R.busy

(* the records of each packet, with their client *)
Plans == [i \in 1..Len(Runs) |-> [p \in 1..Len(Runs[i].packets) |-> PacketMeaning(Runs[i].packets[p])]]
Positions(m) == SelectSeq(m.recs, LAMBDA r : r.pos # <<>>)
Records == [i \in 1..Len(Runs) |-> FoldLeft(LAMBDA acc, m : acc \o Positions(m), <<>>, Plans[i])]
Same(r, g) == SameRec(r.pos[1], g) /\ g.cl = r.ids[1]

-------------------------------------------------------------------------------
Start == [fault |-> "", up |-> FALSE, replies |-> 0, got |-> [s \in 0..8 |-> <<>>]]

(* every sink gets the records in order, each once; got: the verdicts *)
DoMsg(s, ev) ==
  LET n == Len(s.got[ev.s]) + 1 IN
  IF n > Len(Records[sc]) THEN Bad(s, "record from nowhere")
  ELSE IF ~Same(Records[sc][n], ev.rec) THEN Bad(s, "wrong record")
  ELSE IF ev.s > 0 /\ (Condition(ev.s) # "ok" \/ ev.place # Place(R.stores[ev.s].name, R.stores[ev.s].settings, Bk(ev.s)))
       THEN Bad(s, "wrong place")
  ELSE [s EXCEPT !.got[ev.s] = Append(@, ev.v)]

Before(p) == FoldLeft(LAMBDA n, m : n + Len(Positions(m)), 0, SubSeq(Plans[sc], 1, p))

(* the storages that are in use: those that have got something *)
InUse(s) == {i \in 1..NStores : s.got[i] # <<>>}

DoReply(s, ev) ==
  LET p == s.replies + 1
      d == DecPkg(ev.b, [k |-> "none"])
      m == Plans[sc][p]
      conf == FoldLeft(LAMBDA acc, r : acc \o [i \in 1..Len(r.subs) |-> r.subs[i].v], <<>>, d.v.body.recs)
      n0 == Before(p - 1)
      index(j) == n0 + Cardinality({i \in 1..j : m.recs[i].pos # <<>>})
      stored(j) == m.recs[j].pos = <<>> \/ \A i \in InUse(s) : Len(s.got[i]) >= index(j) /\ Taken(s.got[i][index(j)])
  IN IF ~d.ok \/ d.v.PT # 0 THEN Bad(s, "wrong answer")
     ELSE IF d.v.body.RPID # m.pid \/ d.v.body.RES # 0 \/ Len(conf) # Len(m.recs) THEN Bad(s, "wrong answer")
     ELSE IF \E j \in 1..Len(conf) : conf[j].k # "resp" THEN Bad(s, "wrong answer")
     ELSE IF \E j \in 1..Len(conf) : conf[j].CRN # m.recs[j].crn THEN Bad(s, "wrong answer")
     ELSE IF \E j \in 1..Len(conf) : conf[j].RST = 0 /\ ~stored(j) THEN Bad(s, "confirmed what a storage did not take")
     ELSE IF \E j \in 1..Len(conf) : conf[j].RST # 0 /\ stored(j) THEN Bad(s, "denied what was stored")
     ELSE [s EXCEPT !.replies = p]

DoIdle(s, ev) ==
  IF ~ev.closed THEN Bad(s, "idle connection left open")
  ELSE IF ev.ms < R.ttl * 1000 - 80 THEN Bad(s, "closed too early")
  ELSE IF ev.ms > R.ttl * 1000 + 3000 THEN Bad(s, "closed too late")
  ELSE s

(* at the end: who got all of it must be what the configuration allows *)
Sinks(s) == {Name(i) : i \in {j \in 1..NStores : Len(s.got[j]) = Len(Records[sc])}} \cup (IF s.got[0] # <<>> THEN {TheLog} ELSE {})
AllOrNothing(s) == \A i \in 0..NStores : Len(s.got[i]) \in {0, Len(Records[sc])}
MayBe(s) == LET x == Sinks(s) IN x \in SinkSets(Stores) \/ (~LogShows(R.level) /\ x \cup {TheLog} \in SinkSets(Stores))

DoEnd(s) ==
  IF ~Starts THEN Bad(s, "runs without a usable configuration")
  ELSE IF ~s.up \/ s.replies # Len(R.packets) THEN Bad(s, "does not work")
  ELSE s

DoLines(s, ev) ==
  IF ~Starts THEN s
  ELSE IF ev.n > 0 /\ ~Written(ev.level, R.level) THEN Bad(s, "logs more than configured")
  ELSE IF ev.n = 0 /\ R.noise /\ Written(ev.level, R.level) THEN Bad(s, "logs less than configured")
  ELSE IF ev.level = "error" /\ ~AllOrNothing(s) THEN Bad(s, "records missing")
  ELSE IF ev.level = "error" /\ ~MayBe(s) THEN Bad(s, "records are not where they should be")   \* the last event
  ELSE s

Apply(s, ev) ==
  CASE ev.e = "listening" -> IF Starts THEN [s EXCEPT !.up = TRUE] ELSE Bad(s, "runs without a usable configuration")
    [] ev.e = "other" -> IF ev.ok = (R.host \in {"any", "empty"}) THEN s ELSE Bad(s, "listens elsewhere")
    [] ev.e = "msg" -> DoMsg(s, ev)
    [] ev.e = "reply" -> DoReply(s, ev)
    [] ev.e = "noreply" -> Bad(s, "no answer")
    [] ev.e = "idle" -> DoIdle(s, ev)
    [] ev.e = "exit" -> IF Starts THEN Bad(s, "ended") ELSE IF ev.code = 0 THEN Bad(s, "ended without a failure") ELSE s
    [] ev.e = "running" -> DoEnd(s)
    [] ev.e = "notended" -> Bad(s, "runs without a usable configuration")
    [] ev.e = "deaf" -> Bad(s, "does not listen")
    [] ev.e = "lines" -> DoLines(s, ev)
    [] OTHER -> s

Init == sc \in 1..Len(Runs) /\ l = 0 /\ st = Start
Next == l < Len(R.events) /\ st.fault = "" /\ l' = l + 1 /\ UNCHANGED sc /\ st' = Apply(st, Ev)
Conforms == st.fault = ""
Where == [sc |-> sc, l |-> l, fault |-> st.fault]
=============================================================================

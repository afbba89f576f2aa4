----------------------------- MODULE EndToEndTrace -----------------------------
(***************************************************************************)
(* Validates runs of real packet generators against a real receiver with   *)
(* stand-in storages.  A run has the storages, the requests and the events *)
(*   up                 the receiver listens                               *)
(*   begin g            generator g is started                             *)
(*   msg s place v rec  storage s (0: the log) was handed a record         *)
(*   exit g code t      generator g ended, t ms after it was started       *)
(*   hang g             it did not end                                     *)
(*   kill               the receiver is about to be killed                 *)
(*   end                nothing more comes                                 *)
(***************************************************************************)
EXTENDS Meaning, EndToEnd, Connector, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l, st
R == Runs[sc]
Ev == R.events[l + 1]
Bad(s, f) == [s EXCEPT !.fault = f]

Bk(i) == [R.stores[i].backend EXCEPT !.addresses = ToSet(@)]
SinksOf(r) == IF Len(r.stores) = 0 THEN {0} ELSE 1..Len(r.stores)
Sinks == SinksOf(R)
Gens == 1..Len(R.reqs)
(* the generators keep some time for themselves *)
Late(t) == t >= R.timeout * 1000 - 500

Start(i) == [fault |-> "", up |-> FALSE, begun |-> {}, over |-> {}, excused |-> {}, shaky |-> {},
             got |-> [g \in 1..Len(Runs[i].reqs) |-> [s \in SinksOf(Runs[i]) |-> Unheard]]]

(* generators that run at once share the connections to the storages *)
Lost(s) == IF R.par THEN s.shaky ELSE {}

DoMsg(s, ev) ==
  LET whose == {g \in s.begun : R.reqs[g].fits /\ Wanted(R.reqs[g], ev.rec)} IN
  IF whose = {} THEN Bad(s, "stored what nobody asked for")
  ELSE IF ev.s > 0 /\ ev.place # Place(R.stores[ev.s].name, R.stores[ev.s].settings, Bk(ev.s)) THEN Bad(s, "wrong place")
  ELSE LET now == whose \ s.over
           likely == IF now # {} THEN now ELSE whose
           free == {g \in likely : MayHandOver(s.got[g][ev.s])}      \* some requests are equal
           g == CHOOSE g \in (IF free # {} THEN free ELSE likely) : TRUE IN
       IF ~MayHandOver(s.got[g][ev.s]) /\ ev.s \notin Lost(s) THEN Bad(s, "stored twice")
       ELSE [s EXCEPT !.got[g][ev.s] = Handed(@, ev.v), !.shaky = IF Broken(ev.v) THEN @ \cup {ev.s} ELSE @]

DoExit(s, ev) ==
  LET x == ev.g \in s.excused \/ Late(ev.t) IN
  [s EXCEPT !.fault = EndFault(R.reqs[ev.g].fits, s.got[ev.g], s.shaky, Lost(s), ev.code, x),
            !.over = @ \cup {ev.g}, !.excused = IF x THEN @ \cup {ev.g} ELSE @]

(* a report that was taken in goes to every storage, whatever the others say *)
DoEnd(s) ==
  IF \E g \in s.over \ s.excused : R.reqs[g].fits /\ \E k \in Sinks \ s.shaky : s.got[g][k] = <<>> THEN Bad(s, "report missing in a storage") ELSE s

Apply(s, ev) ==
  CASE ev.e = "begin" -> [s EXCEPT !.begun = @ \cup {ev.g}, !.excused = IF s.up THEN @ ELSE @ \cup {ev.g}]
    [] ev.e = "up" -> [s EXCEPT !.up = TRUE]
    [] ev.e = "msg" -> IF ev.s \in Sinks THEN DoMsg(s, ev) ELSE s
    [] ev.e = "exit" -> DoExit(s, ev)
    [] ev.e = "hang" -> Bad(s, "does not end")
    [] ev.e = "deaf" -> Bad(s, "the receiver does not listen")
    [] ev.e = "died" -> Bad(s, "the receiver ended")
    [] ev.e = "kill" -> [s EXCEPT !.up = FALSE, !.excused = @ \cup (s.begun \ s.over)]
    [] ev.e = "end" -> DoEnd(s)
    [] OTHER -> s

Init == sc \in 1..Len(Runs) /\ l = 0 /\ st = Start(sc)
Next == l < Len(R.events) /\ st.fault = "" /\ l' = l + 1 /\ UNCHANGED sc /\ st' = Apply(st, Ev)
Conforms == st.fault = ""
Where == [sc |-> sc, l |-> l, fault |-> st.fault]
=============================================================================

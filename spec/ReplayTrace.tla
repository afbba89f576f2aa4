------------------------------ MODULE ReplayTrace ------------------------------
(***************************************************************************)
(* Validates runs of the real tool against a scripted server.  A run has   *)
(* the lines of its file and the events the server saw, in order:          *)
(*   got b   gave b   shut   (it will send no more)                        *)
(*   exit code sends shown   with the packets and answers it printed       *)
(*   hang                                                                  *)
(***************************************************************************)
EXTENDS Replay, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l, st
R == Runs[sc]
Ev == R.events[l + 1]
Ps == Packets(R.lines).p

Got(s, b) == IF ~Faithful(Ps, s.got \o b) THEN [s EXCEPT !.fault = "sent what is not in the file"]
             ELSE IF ~InTurn(Ps, s.got \o b, s.given, s.shut) THEN [s EXCEPT !.fault = "did not wait for the answer"]
             ELSE [s EXCEPT !.got = @ \o b]

Ended(s, ev) ==
  IF ~Honest(ev.shown, s.given) THEN "showed what was not answered"
  ELSE IF ~IsPrefix(All(ev.sends), All(Ps)) THEN "showed what was not sent"
  ELSE IF ~R.server THEN (IF ev.code = 0 THEN "success without a server" ELSE "")
  ELSE IF s.shut THEN ""
  ELSE IF ~Readable(R.lines) THEN (IF ev.code = 0 THEN "accepted junk" ELSE "")
  ELSE IF ev.code # 0 THEN "failed"
  ELSE IF ~Complete(Ps, s.got, ev.shown) THEN "packets without an answer"
  ELSE IF ev.sends # Ps THEN "did not show what it sent" ELSE ""

Apply(s, ev) ==
  CASE ev.e = "got" -> Got(s, ev.b)
    [] ev.e = "gave" -> [s EXCEPT !.given = @ \o ev.b]
    [] ev.e = "shut" -> [s EXCEPT !.shut = TRUE]
    [] ev.e = "exit" -> [s EXCEPT !.fault = Ended(s, ev)]
    [] ev.e = "hang" -> [s EXCEPT !.fault = "does not end"]

Init == sc \in 1..Len(Runs) /\ l = 0 /\ st = [got |-> <<>>, given |-> <<>>, shut |-> FALSE, fault |-> ""]
Next == l < Len(R.events) /\ st.fault = "" /\ l' = l + 1 /\ UNCHANGED sc /\ st' = Apply(st, Ev)
Conforms == st.fault = ""
Where == [sc |-> sc, l |-> l, fault |-> st.fault]
=============================================================================

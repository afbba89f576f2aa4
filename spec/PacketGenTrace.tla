---------------------------- MODULE PacketGenTrace ----------------------------
(***************************************************************************)
(* Validates runs of the real packet generator.  A run has the request,    *)
(* the bytes it sent on each connection, and the events, in order, each    *)
(* with the time t in ms since the server had the packet:                  *)
(*   answer b   bytes were given to it     close   no more will come       *)
(*   exit code  it ended                   hang    it did not end          *)
(***************************************************************************)
EXTENDS PacketGen, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)
Margin == 400
VARIABLES sc, l, st
R == Runs[sc]
Ev == R.events[l + 1]

Data == SelectSeq(R.sent, LAMBDA b : b # <<>>)
SentOne == Len(Data) = 1 /\ Carries(R.req, Data[1])

Early(t) == t <= R.timeout * 1000 - Margin
Late(t) == t >= R.timeout * 1000 + Margin

(* sure: arrived in time; may: perhaps in time *)
Answered(s, ev) == [s EXCEPT !.sure = IF Early(ev.t) /\ s.sure = s.may THEN @ \o ev.b ELSE @,
                             !.may = IF Late(ev.t) THEN @ ELSE @ \o ev.b]

Ended(s, ev) ==
  IF ~R.req.fits THEN
       IF ev.code = 0 THEN "accepted what it cannot send" ELSE IF Data # <<>> THEN "sent what was not asked for" ELSE ""
  ELSE IF ~R.server THEN (IF ev.code = 0 THEN "success without a server" ELSE "")
  ELSE IF ~SentOne THEN "wrong packet"
  ELSE LET rn == RecordNumber(Data[1])
           a == AnswerTo(s.sure, R.req.pid, rn)
           m == AnswerTo(s.may, R.req.pid, rn)
       IN IF ev.code = 0 THEN (IF MaySucceed(a) \/ MaySucceed(m) THEN "" ELSE "success without confirmation")
          ELSE IF MayFail(a, s.shut, ~Early(ev.t)) THEN ""
          ELSE IF a = "good" THEN "failure in spite of confirmation" ELSE "gave up early"

Apply(s, ev) ==
  CASE ev.e = "answer" -> Answered(s, ev)
    [] ev.e = "close" -> [s EXCEPT !.shut = TRUE]
    [] ev.e = "exit" -> [s EXCEPT !.fault = Ended(s, ev)]
    [] ev.e = "hang" -> [s EXCEPT !.fault = "does not end"]

Init == sc \in 1..Len(Runs) /\ l = 0 /\ st = [sure |-> <<>>, may |-> <<>>, shut |-> FALSE, fault |-> ""]
Next == l < Len(R.events) /\ st.fault = "" /\ l' = l + 1 /\ UNCHANGED sc /\ st' = Apply(st, Ev)
Conforms == st.fault = ""
Where == [sc |-> sc, l |-> l, fault |-> st.fault]
=============================================================================

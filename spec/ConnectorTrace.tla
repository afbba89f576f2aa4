---------------------------- MODULE ConnectorTrace ----------------------------
(***************************************************************************)
(* Validates traces of the real storage connectors.  A scenario has the    *)
(* settings, the backend and the records; its events, in order:            *)
(*   init ok           the connector was initialised                       *)
(*   save i, saveret i ok   a call of Save and its result                  *)
(*   msg place body v  the backend was handed a message: verdict v         *)
(*   down, up          the backend went away, came back                    *)
(*   hang, died        a call did not return, the process ended            *)
(***************************************************************************)
EXTENDS Connector, SequencesExt, Json, IOUtils

Scen == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l, st
S == Scen[sc]
Kind == S.backend.kind
B == [S.backend EXCEPT !.addresses = ToSet(@)]
Ev == S.events[l + 1]

Bad(s, f) == [s EXCEPT !.fault = f]

(* what message a record stands for; some have none *)
Form(r) == IF r.k = "nav" THEN [k |-> "nav", v |-> JsonForm(r.v)] ELSE r
HasMessage(r) == r.k \in {"nav", "raw"}
Is(r, body) == HasMessage(r) /\ r.k = body.k /\ Form(r) = body

Break(s) == [s EXCEPT !.conn = FALSE, !.sv = [i \in DOMAIN @ |-> IF @[i].st = "run" THEN [@[i] EXCEPT !.broke = TRUE] ELSE @[i]]]

DoInit(s, ev) ==
  LET want == ~S.nocfg /\ InitOk(Kind, S.settings, B) IN
  IF ev.ok = want THEN s ELSE Bad(s, IF ev.ok THEN "started without what it needs" ELSE "did not start")

DoMsg(s, ev) ==
  LET same == {i \in DOMAIN s.sv : Is(S.recs[i], ev.body)}
      may == {i \in same : MayHand(s.sv[i])}
      fits == IF may # {} THEN may ELSE IF s.conn \/ Taken(ev.v) = FALSE THEN {} ELSE same
  IN IF same = {} THEN Bad(s, "not the record")
     ELSE IF NoPlace(Kind, S.settings, B) \/ ev.place # Place(Kind, S.settings, B) THEN Bad(s, "wrong place")
     ELSE IF fits = {} THEN (IF s.conn THEN Bad(s, "more than once") ELSE s)
     ELSE LET i == CHOOSE j \in fits : TRUE
              t == [s EXCEPT !.sv[i] = Handed(@, ev.v)]
          IN IF Broken(ev.v) THEN Break(t) ELSE t

DoRet(s, ev) ==
  LET x == s.sv[ev.i]
      none == ~HasMessage(S.recs[ev.i]) \/ NoPlace(Kind, S.settings, B)
  IN IF ev.ok /\ (none \/ ~MaySucceed(x)) THEN Bad(s, "success without delivery")
     ELSE IF ~ev.ok /\ ~none /\ ~MayFail(x, s.conn) THEN Bad(s, "failure without a reason")
     ELSE [s EXCEPT !.sv[ev.i] = Returned(@, ev.ok)]

Apply(s, ev) ==
  CASE ev.e = "init" -> DoInit(s, ev)
    [] ev.e = "save" -> [s EXCEPT !.sv[ev.i] = Begin(@)]
    [] ev.e = "msg" -> DoMsg(s, ev)
    [] ev.e = "saveret" -> DoRet(s, ev)
    [] ev.e = "down" -> Break(s)
    [] ev.e = "hang" -> Bad(s, "does not return")
    [] ev.e = "died" -> Bad(s, "died")
    [] OTHER -> s

Init == /\ sc \in 1..Len(Scen) /\ l = 0
        /\ st = [sv |-> [i \in 1..Len(Scen[sc].recs) |-> Idle], conn |-> TRUE, fault |-> ""]
Next == /\ l < Len(S.events) /\ st.fault = ""
        /\ l' = l + 1 /\ UNCHANGED sc
        /\ st' = Apply(st, Ev)
Conforms == st.fault = ""

(* the promises, on the states of the traces *)
Kept == \A i \in DOMAIN st.sv : /\ st.sv[i].st = "ok" => st.sv[i].got >= 1
                                /\ st.sv[i].st = "ok" /\ ~st.sv[i].broke /\ st.conn => st.sv[i].got = 1 /\ st.sv[i].refused = 0
Where == [sc |-> sc, l |-> l, fault |-> st.fault]
=============================================================================

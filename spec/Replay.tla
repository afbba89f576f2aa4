-------------------------------- MODULE Replay ---------------------------------
(***************************************************************************)
(* tools/send_egts.py: sends the packets of a file, one line each, to a    *)
(* server and shows its answers.  A line is a packet, blank, or junk: what *)
(* is not a packet ends the run.                                           *)
(*   got     bytes the server has received                                 *)
(*   given   bytes the server has sent                                     *)
(*   shown   the answers shown so far                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt

Junk == "junk"
Blank == "blank"

(* the packets up to the first line that is none *)
Packets(lines) ==
  FoldLeft(LAMBDA acc, x : IF acc.stop THEN acc
                           ELSE IF x.k = Junk THEN [acc EXCEPT !.stop = TRUE]
                           ELSE IF x.k = Blank THEN acc ELSE [acc EXCEPT !.p = Append(@, x.b)], [p |-> <<>>, stop |-> FALSE], lines)
Readable(lines) == ~Packets(lines).stop
All(ps) == FoldLeft(LAMBDA acc, p : acc \o p, <<>>, ps)

(* how many of the packets have begun when n bytes have arrived *)
Begun(ps, n) == FoldLeft(LAMBDA acc, p : [at |-> acc.at + Len(p), k |-> IF acc.at < n THEN acc.k + 1 ELSE acc.k], [at |-> 0, k |-> 0], ps).k

(* only what is in the file, in its order *)
Faithful(ps, got) == IsPrefix(got, All(ps))
(* the next packet waits for an answer to the one before *)
InTurn(ps, got, given, shut) == shut \/ Begun(ps, Len(got)) <= 1 \/ Len(given) >= Begun(ps, Len(got)) - 1
(* only what the server sent, in its order *)
Honest(shown, given) == IsPrefix(All(shown), given)
(* each packet has an answer *)
Complete(ps, got, shown) == got = All(ps) /\ Len(shown) = Len(ps) /\ \A i \in 1..Len(shown) : shown[i] # <<>>
=============================================================================

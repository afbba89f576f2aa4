-------------------------------- MODULE MCReplay -------------------------------
(***************************************************************************)
(* The tool and a server that answers each packet in one or two pieces,    *)
(* keeps it waiting, sends something unasked, or closes.                   *)
(***************************************************************************)
EXTENDS Replay, FiniteSets

VARIABLES lines, pos, wait, got, given, taken, shown, owed, shut, over
vars == <<lines, pos, wait, got, given, taken, shown, owed, shut, over>>

Line(n) == {[k |-> "packet", b |-> <<10 * n, 10 * n + 1>>], [k |-> Blank, b |-> <<>>], [k |-> Junk, b |-> <<>>]}
Files == {<<>>} \cup {<<a>> : a \in Line(1)} \cup {<<a, b>> : a \in Line(1), b \in Line(2)} \cup {<<a, b, c>> : a \in Line(1), b \in Line(2), c \in Line(3)}
Ps == Packets(lines).p

Init == /\ lines \in Files /\ pos = 1 /\ wait = FALSE /\ got = <<>> /\ given = <<>> /\ taken = 0 /\ shown = <<>>
        /\ owed = 0 /\ shut = FALSE /\ over = "no"

(* the tool *)
Skip == over = "no" /\ ~wait /\ pos <= Len(lines) /\ lines[pos].k = Blank /\ pos' = pos + 1 /\ UNCHANGED <<lines, wait, got, given, taken, shown, owed, shut, over>>
Fail == /\ over = "no" /\ \/ ~wait /\ pos <= Len(lines) /\ lines[pos].k = Junk
                          \/ shut
        /\ over' = "failed" /\ UNCHANGED <<lines, pos, wait, got, given, taken, shown, owed, shut>>
Send == /\ over = "no" /\ ~wait /\ pos <= Len(lines) /\ lines[pos].k = "packet"
        /\ got' = IF shut THEN got ELSE got \o lines[pos].b
        /\ owed' = owed + 1 /\ wait' = TRUE /\ pos' = pos + 1 /\ UNCHANGED <<lines, given, taken, shown, shut, over>>
Show == /\ over = "no" /\ wait
        /\ \/ \E n \in taken + 1..Len(given) : shown' = Append(shown, SubSeq(given, taken + 1, n)) /\ taken' = n
           \/ shut /\ taken = Len(given) /\ shown' = Append(shown, <<>>) /\ taken' = taken
        /\ wait' = FALSE /\ UNCHANGED <<lines, pos, got, given, owed, shut, over>>
End == over = "no" /\ ~wait /\ pos > Len(lines) /\ over' = "done" /\ UNCHANGED <<lines, pos, wait, got, given, taken, shown, owed, shut>>

(* the server *)
Give == /\ ~shut /\ owed > 0 /\ \E n \in 1..2 : given' = given \o [i \in 1..n |-> 100 + Len(given) + i]
        /\ owed' = owed - 1 /\ UNCHANGED <<lines, pos, wait, got, taken, shown, shut, over>>
More == /\ ~shut /\ Len(given) \in 1..2 /\ given' = Append(given, 200) /\ UNCHANGED <<lines, pos, wait, got, taken, shown, owed, shut, over>>
Shut == ~shut /\ shut' = TRUE /\ UNCHANGED <<lines, pos, wait, got, given, taken, shown, owed, over>>

Next == Skip \/ Fail \/ Send \/ Show \/ End \/ Give \/ More \/ Shut
Spec == Init /\ [][Next]_vars /\ WF_vars(Skip \/ Fail \/ Send \/ Show \/ End) /\ WF_vars(Give)

OnlyTheFile == Faithful(Ps, got) /\ InTurn(Ps, got, given, shut)
OnlyTheAnswers == Honest(shown, given)
EachAnswered == over = "done" /\ ~shut => Complete(Ps, got, shown) /\ Readable(lines)
Ends == <>(over # "no")
Success == [](Readable(lines) => <>(over = "done" \/ shut))
=============================================================================

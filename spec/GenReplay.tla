------------------------------- MODULE GenReplay -------------------------------
(***************************************************************************)
(* The scenarios for the replay tool: files of every shape, and servers    *)
(* that answer in every manner.                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, Json, IOUtils

Thorough == IOEnv.GEN_TIER = "thorough"

Kinds == {"packet", "blank", "junk"}
Shapes(n) == UNION {[1..k -> Kinds] : k \in 0..n}
PacketsIn(s) == Cardinality({i \in DOMAIN s : s[i] = "packet"})
(* how the last line ends, and how long the packets are *)
Ends == {"newline", "none"}
Sizes == {"short", "long", "huge"}

(* manners of answering: at once, after a pause, the first one after a long pause, in two pieces, with more unasked, more than one reading, and closing instead of answer k *)
Manners == {"now", "pause", "long", "pieces", "double", "large", "shut0", "shut1", "shut2"}

Files == {[shape |-> s, last |-> e, size |-> "short", manner |-> "now", server |-> TRUE] : s \in Shapes(3), e \in Ends}
Talks == {[shape |-> [i \in 1..n |-> "packet"], last |-> e, size |-> z, manner |-> m, server |-> TRUE] :
            n \in 1..(IF Thorough THEN 5 ELSE 3), e \in Ends, z \in Sizes, m \in Manners}
Many == {[shape |-> [i \in 1..n |-> "packet"], last |-> "none", size |-> "short", manner |-> "now", server |-> TRUE] : n \in {12} \cup (IF Thorough THEN {40, 120} ELSE {})}
Alone == {[shape |-> <<"packet">>, last |-> "newline", size |-> "short", manner |-> "now", server |-> FALSE]}

Cases == Files \cup Talks \cup Many \cup Alone
ASSUME ndJsonSerialize(IOEnv.GEN_OUT, SetToSeq(Cases))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================

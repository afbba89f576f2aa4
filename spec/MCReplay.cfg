SPECIFICATION Spec
INVARIANTS OnlyTheFile OnlyTheAnswers EachAnswered
PROPERTIES Ends Success
CHECK_DEADLOCK FALSE

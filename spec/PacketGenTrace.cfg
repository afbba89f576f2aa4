INIT Init
NEXT Next
INVARIANT Conforms
ALIAS Where
CHECK_DEADLOCK FALSE
CONSTANT PlusOk <- PlusIsOk

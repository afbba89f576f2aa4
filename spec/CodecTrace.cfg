INIT Init
NEXT Next
CONSTANT PlusOk <- PlusIsOk
INVARIANT Conforms
CHECK_DEADLOCK FALSE

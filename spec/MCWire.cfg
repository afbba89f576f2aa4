INIT Init
NEXT Next
CONSTANT PlusOk <- PlusIsOk
INVARIANT Holds
CHECK_DEADLOCK FALSE

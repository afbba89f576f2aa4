INIT Init
NEXT Next
INVARIANTS Conforms Kept
ALIAS Where
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
CONSTANTS
  PlusOk <- PlusIsOk
  Stores <- AllStores
  NoClient <- Nobody
  StatusOk = 0
  StatusFailed = 155
INVARIANT Conforms
ALIAS Where
CHECK_DEADLOCK FALSE

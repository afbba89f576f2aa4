SPECIFICATION Spec
CONSTANTS
  Stores = {"a", "b"}
  NoClient <- Nobody
  StatusOk = 0
  StatusFailed = 155
  Conns = {1, 2}
  Kinds = {"pos", "bad"}
  MaxPackets = 1
  TTL = 0
  MaxTime = 0
  MaxFails = 1
  CanStop = FALSE
  CanAbort = TRUE
  Deaf = {}
  Room = 9
  Limit = 9
  Leaving = {}
INVARIANT Inv
CHECK_DEADLOCK FALSE

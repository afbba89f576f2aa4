SPECIFICATION Spec
INVARIANTS Truth Nothing
CHECK_DEADLOCK TRUE
CONSTANT PlusOk <- PlusIsOk
CONSTANT Gens = {1, 2, 4}
CONSTANT Stores = {"a", "b"}
CONSTANT MaxFails = 2
CONSTANT CanDie = TRUE
CONSTANT NoClient = 0
CONSTANT StatusOk = 0
CONSTANT StatusFailed = 155

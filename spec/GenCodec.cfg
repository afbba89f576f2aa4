INIT Init
NEXT Next
CONSTANT PlusOk <- PlusIsOk

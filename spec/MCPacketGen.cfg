SPECIFICATION Spec
INVARIANTS Truth OnePacket
PROPERTIES NoDenial Patient Ends
CHECK_DEADLOCK FALSE
CONSTANT PlusOk <- PlusIsOk
CONSTANT Segments = 3

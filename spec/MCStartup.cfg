SPECIFICATION Spec
INVARIANTS Runs Somewhere Named NothingLost
PROPERTY Decides
CHECK_DEADLOCK FALSE
CONSTANTS
 Names = {"a", "b", "c"}
 Records = {1, 2}

SPECIFICATION Spec
INVARIANTS Truth Reported Healthy
PROPERTY Ends
CONSTANTS
  Saves = {1, 2, 3}
  Tries = 2
  Verdicts = {"ok", "refuse", "before", "after"}
  MaxBreaks = 2
CHECK_DEADLOCK FALSE

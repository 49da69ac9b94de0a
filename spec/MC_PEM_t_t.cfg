CONSTANTS DEPTH = 1
 UPD = TRUE
 TIMED = TRUE
SPECIFICATION Spec
INVARIANT Agrees Monotone Positive
CHECK_DEADLOCK FALSE

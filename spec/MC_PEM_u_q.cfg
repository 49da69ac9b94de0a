CONSTANTS DEPTH = 1
 UPD = FALSE
 TIMED = FALSE
SPECIFICATION Spec
INVARIANT Agrees Monotone Positive
CHECK_DEADLOCK FALSE

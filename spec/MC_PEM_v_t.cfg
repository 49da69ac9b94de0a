CONSTANTS DEPTH = 3
 UPD = TRUE
 TIMED = FALSE
SPECIFICATION Spec
INVARIANT Agrees Monotone Positive
CHECK_DEADLOCK FALSE

CONSTANTS KIND = "CTMCU"
 DEPTH = 3
 PAIRS = TRUE
SPECIFICATION Spec
INVARIANT WellFormed Monotone ZerosStay
CHECK_DEADLOCK FALSE

CONSTANTS KIND = "MC"
 DEPTH = 3
 PAIRS = TRUE
SPECIFICATION Spec
INVARIANT WellFormed Monotone ZerosStay
CHECK_DEADLOCK FALSE

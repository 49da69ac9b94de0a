CONSTANTS KIND = "MDP"
 DEPTH = 2
 PAIRS = FALSE
SPECIFICATION Spec
INVARIANT WellFormed Monotone ZerosStay
CHECK_DEADLOCK FALSE

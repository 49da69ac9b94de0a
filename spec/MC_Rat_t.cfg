CONSTANTS BOUND = 7
 USEBIG = TRUE
SPECIFICATION Spec
INVARIANT Machine Laws
CHECK_DEADLOCK FALSE

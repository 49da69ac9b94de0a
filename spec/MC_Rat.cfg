CONSTANTS BOUND = 4
 USEBIG = TRUE
SPECIFICATION Spec
INVARIANT Machine Laws
CHECK_DEADLOCK FALSE

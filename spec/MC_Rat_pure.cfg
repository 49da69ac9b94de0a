CONSTANTS BOUND = 2
 USEBIG = FALSE
SPECIFICATION Spec
INVARIANT Machine
CHECK_DEADLOCK FALSE

CONSTANTS DEPTH = 2
 LISTS = 4
SPECIFICATION Spec
INVARIANT Refines Emit
CHECK_DEADLOCK FALSE

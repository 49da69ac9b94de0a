CONSTANTS DEPTH = 3
 LISTS = 3
SPECIFICATION Spec
INVARIANT Refines Emit
CHECK_DEADLOCK FALSE

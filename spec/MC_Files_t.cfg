SPECIFICATION Spec
CONSTANT DEPTH = 5
INVARIANTS Right Emit
CHECK_DEADLOCK FALSE

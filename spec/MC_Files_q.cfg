SPECIFICATION Spec
CONSTANT DEPTH = 4
INVARIANTS Right Emit
CHECK_DEADLOCK FALSE

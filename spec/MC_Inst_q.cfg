SPECIFICATION Spec
CONSTANT DEPTH = 2
INVARIANTS Sound Atomic Emit
CHECK_DEADLOCK FALSE

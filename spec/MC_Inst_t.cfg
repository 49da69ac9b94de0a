SPECIFICATION Spec
CONSTANT DEPTH = 3
INVARIANTS Sound Atomic
CHECK_DEADLOCK FALSE

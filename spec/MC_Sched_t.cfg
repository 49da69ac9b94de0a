SPECIFICATION Spec
CONSTANT DEPTH = 5
INVARIANTS Memory OneDist Emit
CHECK_DEADLOCK FALSE

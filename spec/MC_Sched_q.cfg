SPECIFICATION Spec
CONSTANT DEPTH = 3
INVARIANTS Memory OneDist Emit
CHECK_DEADLOCK FALSE

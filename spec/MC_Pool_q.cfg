CONSTANTS W = 3
 NTASKS = 4
SPECIFICATION Spec
INVARIANT SameAsSequential AnyOrder EachOnce Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE

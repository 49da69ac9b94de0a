CONSTANTS W = 4
 NTASKS = 5
SPECIFICATION Spec
INVARIANT SameAsSequential AnyOrder EachOnce Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE

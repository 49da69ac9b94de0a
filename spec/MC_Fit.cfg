CONSTANTS MAXIT = 5
 EPS = 2
 GAINS = {0,1,2,3}
SPECIFICATION Spec
INVARIANT RoundsAreUpdates StopsExactly FileIsFinal
PROPERTY AlwaysDone
CHECK_DEADLOCK FALSE

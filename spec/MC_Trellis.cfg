SPECIFICATION Spec
INVARIANT PathSum Invariant2 PosteriorOK
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS NIT = 2
CONSTANT LENGTHS <- L_q
INVARIANTS WellFormed Frame Nothing_lost Sampled Refit Blended Distribution Answers
PROPERTY Terminates
CHECK_DEADLOCK FALSE

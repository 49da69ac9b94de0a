SPECIFICATION Spec
CONSTANTS NIT = 3
CONSTANT LENGTHS <- L_t
INVARIANTS WellFormed Frame Nothing_lost Sampled Refit Blended Distribution Answers
PROPERTY Terminates
CHECK_DEADLOCK FALSE

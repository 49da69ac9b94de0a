SPECIFICATION Spec
CONSTANTS STEPS = 4
 KINDS = {"MC","CTMC"}
INVARIANTS RunIsPossible LengthOK Weight OnlyRuns
CHECK_DEADLOCK FALSE

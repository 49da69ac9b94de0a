SPECIFICATION Spec
CONSTANTS STEPS = 2
 KINDS = {"MC","CTMC"}
INVARIANTS RunIsPossible LengthOK Weight Total1 OnlyRuns
CHECK_DEADLOCK FALSE

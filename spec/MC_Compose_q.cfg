CONSTANTS Rates = {0,1}  MaxSync = 1  Comps = 2
SPECIFICATION Spec
INVARIANTS Remembered Equal Emit
CHECK_DEADLOCK FALSE

CONSTANTS Rates = {1}  MaxSync = 1  Comps = 3
SPECIFICATION Spec
INVARIANTS Remembered Equal
CHECK_DEADLOCK FALSE

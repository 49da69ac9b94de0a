CONSTANTS Rates = {1}  MaxSync = 2  Comps = 2
SPECIFICATION Spec
INVARIANTS Remembered Equal
CHECK_DEADLOCK FALSE

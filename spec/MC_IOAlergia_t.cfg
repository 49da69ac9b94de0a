SPECIFICATION Spec
CONSTANTS
 KIND = "IO"
 NSYM = 4
 NLAB = 2
 LEN = 2
 NTR = 3
 MULTS <- M1
 AL <- A1
INVARIANTS Flow Stops Explains Positive Labels RedLive BlueTree
PROPERTY Progress
CHECK_DEADLOCK FALSE

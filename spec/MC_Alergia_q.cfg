SPECIFICATION Spec
CONSTANTS
 KIND = "MC"
 NSYM = 2
 NLAB = 2
 LEN = 3
 NTR = 2
 MULTS <- M1
 AL <- A1
INVARIANTS Flow Stops Explains Positive Labels RedLive BlueTree Emit
PROPERTY Progress
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  KIND = "CTMC"
  MAXT = 3
  IDS = {0,2}
  PS = {1,2}
INVARIANTS OrderFree LastCounts NamesOfIds Ranks Nothing Stochastic Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  KIND = "MC"
  MAXT = 3
  IDS = {0,1}
  PS = {1,2}
INVARIANTS OrderFree LastCounts NamesOfIds Ranks Nothing Stochastic Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  MaxAbs = 4
  MaxQuarter = 30
  PosScales = {8, 4, 3, 16}
  NegScales = {12, 1}
INVARIANT Sound
CHECK_DEADLOCK FALSE

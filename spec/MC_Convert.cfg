SPECIFICATION Spec
CONSTANTS
  MaxAbs = 2
  MaxQuarter = 13
  PosScales = {8, 4}
  NegScales = {12}
INVARIANT Sound
CHECK_DEADLOCK FALSE

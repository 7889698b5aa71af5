SPECIFICATION Spec
CONSTANTS
  MaxPkts = 2
  Leaves = 2
  Need <- MCNeed
INVARIANT Agrees
CHECK_DEADLOCK FALSE

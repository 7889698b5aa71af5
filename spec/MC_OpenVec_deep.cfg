SPECIFICATION Spec
CONSTANTS
  MaxPkts = 3
  Leaves = 2
  Need <- MCNeed
INVARIANT Agrees
CHECK_DEADLOCK FALSE

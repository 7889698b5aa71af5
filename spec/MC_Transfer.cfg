SPECIFICATION MSpec
CONSTANTS
  Vecs = {"a", "b"}
  Sessions = {"s"}
  MaxRecs = 3
  MaxCap = 3
  Fields = 2
INVARIANTS InOrder NoExtra Exclusive
PROPERTY Stable
CHECK_DEADLOCK FALSE

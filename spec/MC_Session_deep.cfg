SPECIFICATION Spec
CONSTANTS
  MaxRecs = 2
  Vs = {"v1", "v2"}
  Hs = {"h1", "h2"}
INVARIANTS Exclusive ReadersWithin StoredHasSection HandlesExact
PROPERTIES Stable Forward
CHECK_DEADLOCK FALSE

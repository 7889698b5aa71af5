SPECIFICATION Spec
CONSTANTS
  Names = {"b1", "b2"}
  Lens = {0, 1, 3}
  Tags = {1, 2}
INVARIANTS Meaning Maximal Slices
PROPERTY Guarded
CHECK_DEADLOCK FALSE

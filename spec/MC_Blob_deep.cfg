SPECIFICATION Spec
CONSTANTS
  Names = {"b1", "b2"}
  Lens = {0, 2, 4}
  Tags = {1, 2, 3}
INVARIANTS Meaning Maximal Slices
PROPERTY Guarded
CHECK_DEADLOCK FALSE

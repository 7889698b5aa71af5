SPECIFICATION Spec
CONSTANTS
  Widths = {0, 1, 2, 3}
  Counts = {0, 1, 2, 3}
INVARIANTS Decodes
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT Small = TRUE
INVARIANTS Accepted Tight SizesTold FirstVisual
PROPERTY Independent
CHECK_DEADLOCK FALSE

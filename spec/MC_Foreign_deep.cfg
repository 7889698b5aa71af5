SPECIFICATION Spec
CONSTANT Small = FALSE
INVARIANTS Accepted Tight SizesTold FirstVisual
PROPERTY Independent
CHECK_DEADLOCK FALSE

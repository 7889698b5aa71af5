SPECIFICATION MCSpec
CONSTANT MaxNodes = 5
INVARIANTS Consistent Homogeneous PathsAgree
PROPERTY Stays
CHECK_DEADLOCK FALSE

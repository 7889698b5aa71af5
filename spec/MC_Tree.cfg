SPECIFICATION MCSpec
CONSTANT MaxNodes = 4
INVARIANTS Consistent Homogeneous PathsAgree
PROPERTY Stays
CHECK_DEADLOCK FALSE

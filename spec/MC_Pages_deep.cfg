SPECIFICATION Spec
CONSTANTS
  N = 11
  Items <- MCItems
INVARIANTS Refines NeverDelivered NoFalseAlarm Share
CHECK_DEADLOCK FALSE

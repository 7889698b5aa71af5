SPECIFICATION Spec
CONSTANTS
  N = 7
  Items <- MCItems
INVARIANTS Refines NeverDelivered NoFalseAlarm Share
CHECK_DEADLOCK FALSE

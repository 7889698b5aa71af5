SPECIFICATION Spec
CONSTANTS
  Fields = {1, 2}
  U <- MCU
  N = 3
  K = 4
  Caps = {1, 2, 3}
INVARIANTS Delivers Consistent Bounded
PROPERTY Returns
CHECK_DEADLOCK FALSE

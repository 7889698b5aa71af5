SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 1
  Faults = 0
  HasOld = FALSE

CONSTANTS
  N = 5
  Faults = 2
  HasOld = TRUE
SPECIFICATION Spec
INVARIANTS CrashSafe Once NoSilentLoss NoWrongFile
CHECK_DEADLOCK FALSE

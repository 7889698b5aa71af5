CONSTANTS
  N = 8
  Faults = 3
  HasOld = TRUE
SPECIFICATION Spec
INVARIANTS CrashSafe Once NoSilentLoss NoWrongFile
CHECK_DEADLOCK FALSE

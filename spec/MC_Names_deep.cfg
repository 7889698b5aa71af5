SPECIFICATION Spec
CONSTANTS MaxLen = 5
          MaxExts = 3
INVARIANTS Unique GrammarHolds ReadIsWritten
PROPERTY OnlyGrows
CHECK_DEADLOCK FALSE

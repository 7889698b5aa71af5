SPECIFICATION Spec
CONSTANTS MaxLen = 4
          MaxExts = 2
INVARIANTS Unique GrammarHolds ReadIsWritten
PROPERTY OnlyGrows
CHECK_DEADLOCK FALSE

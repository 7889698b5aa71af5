SPECIFICATION TraceSpec
CONSTANTS
  Vecs <- TraceVecs
  Sessions <- TraceSessions
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

--------------------------- MODULE Trace_Convert ---------------------------
(* Is every recorded transfer and construction allowed by Convert? *)
EXTENDS Convert, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Field(e) == [ft |-> e.ft, lo |-> e.lo, hi |-> e.hi, scale |-> e.scale, off |-> e.off]

Step(e) ==
   CASE e.op = "reset" -> TRUE
     [] e.op = "setup" -> e.r = "ok"
     [] e.op = "cell" ->
          LET F == Field(e)
          IN /\ e.r = "ok"
             /\ e.mk = "ok"
             /\ IF e.n = 1
                THEN /\ WriteStep(F, e.wrep, e.wconv, e.wscal, e.x, e.w, e.raw)
                     /\ e.w = "ok" =>
                          /\ e.rawr = "ok"
                          /\ \A i \in 1..Len(e.reads) :
                                LET d == e.reads[i]
                                IN ReadStep(F, d.rep, d.conv, d.scal, e.raw, d.r, d.got)
                \* the value x stands among others, all equal to y: each has its own right to succeed or fail
                ELSE /\ WritePair(F, e.wrep, e.wconv, e.wscal, e.x, e.y, e.w, e.raw, e.rawy)
                     /\ e.w = "ok" =>
                          /\ e.rawr = "ok" /\ e.same
                          /\ \A i \in 1..Len(e.reads) :
                                LET d == e.reads[i]
                                IN ReadPair(F, d.rep, d.conv, d.scal, e.raw, e.rawy, d.r, d.got, d.goty) /\ (d.r = "ok" => d.same)
     [] e.op = "new" -> NewStep(e.ft, e.x, e.lo, e.hi, e.r, e.got)
     [] e.op = "newscaled" -> NewScaledStep(Field(e), e.x, e.lo, e.hi, e.r, e.got)
     [] e.op = "report" -> e.r = "ok" /\ ScaledReport(Field(e), e.x, e.got.x)
                                      /\ ScaledReport(Field(e), e.lo, e.got.lo)
                                      /\ ScaledReport(Field(e), e.hi, e.got.hi)
     [] OTHER -> FALSE

TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted ==
   LET d == TLCGet("stats").diameter
   IN IF d = Len(Trace) + 1 THEN TRUE ELSE Print(<<"REJECTED", d>>, FALSE)
=============================================================================

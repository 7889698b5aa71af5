----------------------------- MODULE Trace_Open -----------------------------
(* Do recorded attempts to open and read malformed files conform to Open? *)
EXTENDS Open, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l

Step(e) ==
   CASE e.op = "reset" -> TRUE
     [] e.op = "setup" -> e.r = "ok"
     \* hangs and crashes never get this far; what is read from a doubtful document is not judged here
     [] e.op = "open" -> /\ e.xml.odd \/ OpenOk(e, e.r)
                         /\ e.documented
     \* the other vectors and blobs of the file are not affected
     [] e.op = "vec" -> VectorOk(e.s, e.r, e.n, e.good) /\ e.others
     [] OTHER -> FALSE

TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED", d>>, FALSE)
=============================================================================

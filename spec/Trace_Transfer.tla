--------------------------- MODULE Trace_Transfer ---------------------------
(* Is a recorded execution a behaviour of Transfer? *)
EXTENDS Transfer, TLC, Json, IOUtils

VARIABLE l

Trace == ndJsonDeserialize(IOEnv.TRACE)

TraceVecs == {"v1", "v2", "v3", "v4", "v5", "v6"}
TraceSessions == {"s1", "s2", "s3", "s4", "s5", "s6", "s7", "s8"}

Ok(e) == e.r = "ok"

Step(e) == \/ e.op = "reset" /\ recs' = [v \in Vecs |-> -1] /\ phase' = "none" /\ writer' = NoWriter
                             /\ reader' = [s \in Sessions |-> NoReader]
           \/ e.op = "setup" /\ Ok(e) /\ UNCHANGED tvars
           \/ e.op = "openW" /\ Ok(e) /\ OpenForWrite
           \/ e.op = "vector" /\ Ok(e) /\ CreateVector(e.v)
           \/ e.op = "writer" /\ Ok(e) /\ OpenWriter(e.v, e.cap)
           \/ e.op = "write" /\ Ok(e) /\ e.res = "ok" /\ Write(e.start, e.k, e.cap)
           \/ e.op = "closeWriter" /\ Ok(e) /\ CloseWriter
           \/ e.op = "closeFile" /\ Ok(e) /\ CloseFile
           \/ e.op = "reopen" /\ Ok(e) /\ Reopen
           \/ e.op = "count" /\ Ok(e) /\ Count(e.vec, e.v)
           \/ e.op = "reader" /\ Ok(e) /\ OpenReader(e.s, e.v, e.cap, e.nf)
           \/ e.op = "read" /\ Ok(e) /\ e.res = "ok" /\ Read(e.s, e.cap, e.n, e.runs, e.clean)
           \/ e.op = "closeReader" /\ Ok(e) /\ CloseReader(e.s)
           \/ e.op = "many" /\ Ok(e) /\ ManyFields(e.n, e.rec, e.w, e.count, e.same) /\ UNCHANGED tvars

TraceInit == TInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, l>>

TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED", d>>, FALSE)
=============================================================================

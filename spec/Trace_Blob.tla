----------------------------- MODULE Trace_Blob -----------------------------
(* Is a recorded execution a behaviour of Blob? *)
EXTENDS Blob, Json, IOUtils, TLC

VARIABLE l

Trace == ndJsonDeserialize(IOEnv.TRACE)

Step(e) == \/ e.op = "reset" /\ phase' = "none" /\ blobs' = EmptyFun /\ vecs' = EmptyFun /\ tree' = ""
           \/ e.op = "setup" /\ e.r = "ok" /\ UNCHANGED bvars
           \/ e.op = "openw" /\ e.r = "ok" /\ OpenWrite
           \/ e.op = "new" /\ New(e.b, e.len, e.r)
           \/ e.op = "attach" /\ e.r = "ok" /\ Attach(e.b, e.name)
           \/ e.op = "write" /\ Write(e.b, e.start, e.n, e.tag, e.r)
           \/ e.op = "read" /\ Read(e.b, e.start, e.n, e.r, e.runs)
           \/ e.op = "bytes" /\ ByteCount(e.b, e.r, e.v)
           \/ e.op = "vector" /\ e.r = "ok" /\ Vector(e.vec, e.n)
           \/ e.op = "readvec" /\ e.r = "ok" /\ ReadVector(e.vec, e.n, e.good)
           \/ e.op = "tree" /\ e.r = "ok" /\ SeeTree(e.t)
           \/ e.op = "close" /\ e.r = "ok" /\ Close
           \/ e.op = "reopen" /\ e.r = "ok" /\ Reopen
           \/ e.op = "find" /\ e.r = "ok" /\ Find(e.b, e.old, e.name)

TraceInit == BInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<bvars, l>>

TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED", d>>, FALSE)
=============================================================================

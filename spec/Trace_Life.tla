----------------------------- MODULE Trace_Life -----------------------------
(* Is a recorded execution a behaviour of Life? *)
EXTENDS Life, Json, IOUtils, TLC

VARIABLE l

Trace == ndJsonDeserialize(IOEnv.TRACE)

Step(e) == \/ e.op = "reset" /\ imgs' = EmptyFun /\ handles' = EmptyFun /\ disk' = EmptyFun
           \/ e.op = "setup" /\ e.r = "ok" /\ UNCHANGED lvars
           \/ e.op = "openw" /\ e.r = "ok" /\ OpenWrite(e.h, e.i, e.p)
           \/ e.op = "openr" /\ OpenRead(e.h, e.i, e.p, e.buf, e.r)
           \/ e.op = "badmode" /\ OpenBadMode(e.p, e.r)
           \/ e.op = "badplace" /\ OpenBadPlace(e.r)
           \/ e.op = "copy" /\ e.r = "ok" /\ Copy(e.h, e.g)
           \/ e.op = "fill" /\ e.r = "ok" /\ Fill(e.h, e.tag)
           \/ e.op = "close" /\ e.r = "ok" /\ Close(e.h)
           \/ e.op = "cancel" /\ e.r = "ok" /\ Cancel(e.h)
           \/ e.op = "drop" /\ e.r = "ok" /\ Drop(e.h)
           \/ e.op = "stat" /\ e.r = "ok" /\ Stat(e.p, e.exists, e.hash)
           \/ e.op = "content" /\ Content(e.h, e.r, e.v)
           \/ e.op = "probe" /\ e.r = "ok" /\ Probe(e.h, e)
           \/ e.op = "same" /\ e.r = "ok" /\ Same(e.h, e.g, e.v)

TraceInit == LInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<lvars, l>>

TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED", d>>, FALSE)
=============================================================================

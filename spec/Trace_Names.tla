----------------------------- MODULE Trace_Names -----------------------------
(* Is a recorded execution a behaviour of Names? *)
EXTENDS Names, Json, IOUtils, TLC

VARIABLE l

Trace == ndJsonDeserialize(IOEnv.TRACE)

Tree(e) == {<< >>} \cup {e.tree[i] : i \in DOMAIN e.tree}

Step(e) == \/ e.op = "reset" /\ exts' = EmptyFun /\ state' = EmptyFun
           \/ e.op = "setup" /\ e.r = "ok" /\ UNCHANGED nvars
           \/ e.op = "open" /\ e.r = "ok" /\ OpenFile(e.f)
           \/ e.op = "close" /\ e.r = "ok" /\ CloseFile(e.f)
           \/ e.op = "reopen" /\ e.r = "ok" /\ Reopen(e.from, e.f)
           \/ e.op = "name" /\ e.r = "ok" /\ Judged(e.f, e.s, e.x)
           \/ e.op = "path" /\ e.r = "ok" /\ Looked(e.f, Tree(e), e.s, e.def, e.get, e.v)
           \/ e.op = "add" /\ Add(e.f, e.p, e.u, e.r)
           \/ e.op = "list" /\ Listing(e.f, e.r, e.exts)
           \/ e.op = "byPrefix" /\ ByPrefix(e.f, e.p, e.r, e.found, e.v)
           \/ e.op = "byUri" /\ ByUri(e.f, e.u, e.r, e.found, e.v)

TraceInit == NInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<nvars, l>>

TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED", d>>, FALSE)
=============================================================================

--------------------------- MODULE Trace_Session ---------------------------
(* Is a recorded execution a behaviour of Session? *)
EXTENDS Session, Json, IOUtils, TLC

VARIABLE l

Trace == ndJsonDeserialize(IOEnv.TRACE)

Bufs(e) == [i \in DOMAIN e.bufs |-> [p |-> e.bufs[i][1], cap |-> e.bufs[i][2], sig |-> e.bufs[i][3], rep |-> e.bufs[i][4]]]
LeafMap(e) == [p \in {e.leaves[i][1] : i \in DOMAIN e.leaves} |->
                 (CHOOSE i \in DOMAIN e.leaves : e.leaves[i][1] = p) ]
Leaves(e) == [p \in DOMAIN LeafMap(e) |-> e.leaves[LeafMap(e)[p]][2]]

Kinds(e) == [q \in {e.kinds[i][1] : i \in DOMAIN e.kinds} |-> (e.kinds[CHOOSE i \in DOMAIN e.kinds : e.kinds[i][1] = q])[2]]

Step(e) == \/ e.op = "reset" /\ files' = EmptyFun /\ vecs' = EmptyFun /\ sess' = EmptyFun /\ hs' = EmptyFun /\ saved' = EmptyFun
           \/ e.op = "setup" /\ e.r = "ok" /\ UNCHANGED svars
           \/ e.op = "openw" /\ e.r = "ok" /\ OpenWrite(e.f)
           \/ e.op = "openr" /\ e.r = "ok" /\ OpenRead(e.f, e.p)
           \/ e.op = "closef" /\ e.r = "ok" /\ CloseFile(e.f, e.p)
           \/ e.op = "cancelf" /\ e.r = "ok" /\ CancelFile(e.f)
           \/ e.op = "newvec" /\ e.r = "ok" /\ NewVec(e.vec, e.f, e.path, Leaves(e), Kinds(e))
           \/ e.op = "attach" /\ e.r = "ok" /\ Attach(e.vec)
           \/ e.op = "getvec" /\ e.r = "ok" /\ GetVec(e.vec, e.f, e.p, e.path)
           \/ e.op = "damage" /\ e.r = "ok" /\ Damage(e.p, e.path, e.what)
           \/ e.op = "count" /\ e.r = "ok" /\ ChildCount(e.vec, e.v)
           \/ e.op = "counts" /\ Counts(e.f, e.w, e.rd)
           \/ e.op = "new" /\ New(e.kind, e.h, e.s, e.vec, Bufs(e), e.r)
           \/ e.op = "copy" /\ e.r = "ok" /\ CopyHandle(e.h, e.g)
           \/ e.op = "write" /\ Write(e.h, e.k, e.res)
           \/ e.op = "writewith" /\ WriteWith(e.h, Bufs(e), e.k, e.res)
           \/ e.op = "read" /\ Read(e.h, e.res, e.n, e.runs, e.clean)
           \/ e.op = "readwith" /\ ReadWith(e.h, Bufs(e), e.res, e.n, e.runs, e.clean)
           \/ e.op = "seek" /\ Seek(e.h, e.r)
           \/ e.op = "isopen" /\ e.r = "ok" /\ SessOpen(e.h, e.v)
           \/ e.op = "close" /\ Close(e.h, e.r)
           \/ e.op = "drop" /\ e.r = "ok" /\ Drop(e.h)

TraceInit == SInit /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<svars, l>>

TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED", d>>, FALSE)
=============================================================================

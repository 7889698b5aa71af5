---------------------------- MODULE Trace_Simple ----------------------------
(* Do recorded uses of the Simple API conform to Simple? *)
EXTENDS Simple, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, file, guids
tvars == <<vars, file, guids>>

\* limits left open in a header that is not filled are whatever the type admits
WideOf(h, filled) == [g \in Ranges |-> Unlimited(h, g) /\ h[g \o ".type"] \in (IF filled THEN {"int"} ELSE {"int", "scaled"})]
Outcome(r, errs) == IF errs = {} THEN r = "ok" ELSE r \in errs
In(i, q) == i >= 0 /\ i < Len(q)
NewGuid(h0, h1) == IF h0["guid"] = "" THEN h1["guid"] \notin guids ELSE TRUE

Step(e) ==
   CASE e.op = "reset" -> /\ scans' = <<>> /\ images' = <<>> /\ mode' = "none"
                          /\ file' = [guid |-> "", meta |-> "", date |-> Zero, atomic |-> 0]
                          /\ guids' = {}
     [] e.op = "setup" -> e.r = "ok" /\ UNCHANGED tvars
     [] e.op = "fresh" -> (\A k \in DOMAIN ScanDefault : e.v[k] = ScanDefault[k]) /\ UNCHANGED tvars
     [] e.op = "open" -> /\ e.r = "ok"
                         /\ mode' = "write"
                         /\ file' = [guid |-> e.guid, meta |-> e.meta, date |-> Zero, atomic |-> 0]
                         /\ UNCHANGED <<scans, images, guids>>
     [] e.op = "creation" -> /\ e.r = "ok"
                             /\ file' = [file EXCEPT !.date = e.value, !.atomic = e.atomic]
                             /\ UNCHANGED <<vars, guids>>
     \* buffers made by the library
     [] e.op = "alloc" -> /\ Outcome(e.r, AllocErrs(e.h))
                          /\ e.r = "ok" => Set(e.fields) = Used(e.h) /\ AllocAfterOk(e.h, e.after, e.kind)
                          /\ UNCHANGED tvars
     \* header and points
     [] e.op = "scan" -> /\ Outcome(e.r, HeaderErrs(e.h0) \cup BufferErrs(e.h0, Set(e.bufs)))
                         /\ IF e.r = "ok"
                            THEN /\ e.i = Len(scans)
                                 /\ AfterOk(e.h0, e.h1, e.n, Set(e.admits))
                                 /\ NewGuid(e.h0, e.h1)
                                 /\ AddScan(e.h1, e.n, WideOf(e.h1, e.n > 0))
                                 /\ guids' = guids \cup {e.h1["guid"]}
                                 /\ UNCHANGED file
                            ELSE /\ mode' = (IF e.r \in {"ErrorNoBufferForElement", "ErrorBadAPIArgument"} THEN "lost" ELSE mode)
                                 /\ UNCHANGED <<scans, images, file, guids>>
     \* header alone
     [] e.op = "head" -> /\ Outcome(e.r, HeaderErrs(e.h0))
                         /\ IF e.r = "ok"
                            THEN /\ e.i = Len(scans)
                                 /\ AfterOk(e.h0, e.h1, 0, {})
                                 /\ NewGuid(e.h0, e.h1)
                                 /\ AddScan(e.h1, 0, WideOf(e.h1, FALSE))
                                 /\ guids' = guids \cup {e.h1["guid"]}
                                 /\ UNCHANGED file
                            ELSE UNCHANGED tvars
     [] e.op = "points" -> /\ Outcome(e.r, BufferErrs(scans[e.i + 1].h, Set(e.bufs)))
                           /\ IF e.r = "ok" THEN scans' = [scans EXCEPT ![e.i + 1].n = e.n] ELSE UNCHANGED scans
                           /\ UNCHANGED <<images, mode, file, guids>>
     [] e.op = "wgroups" -> IF ~In(e.i, scans) \/ scans[e.i + 1].h["grp.id"] = ""
                            THEN e.r = "ok" /\ ~e.v /\ UNCHANGED tvars
                            ELSE /\ Outcome(e.r, GroupErrs(scans[e.i + 1], e.num, e.ids, e.starts, e.counts))
                                 /\ IF e.r = "ok"
                                    THEN /\ e.v
                                         /\ scans' = [scans EXCEPT ![e.i + 1].groups = [k \in 1..Len(e.ids) |-> <<e.ids[k], e.starts[k], e.counts[k]>>]]
                                         /\ UNCHANGED <<images, mode, file, guids>>
                                    ELSE mode' = "lost" /\ UNCHANGED <<scans, images, file, guids>>
     [] e.op = "isopen" -> e.r = "ok" /\ e.v = (mode = e.want) /\ UNCHANGED tvars
     [] e.op = "close" -> /\ e.r = "ok"
                          /\ e.v = (mode = "write")
                          /\ mode' = "closed"
                          /\ UNCHANGED <<scans, images, file, guids>>
     [] e.op = "ropen" -> e.r = "ok" /\ mode = "closed" /\ mode' = "read" /\ UNCHANGED <<scans, images, file, guids>>
     [] e.op = "rclose" -> e.r = "ok" /\ e.v = (mode = "read") /\ mode' = "closed" /\ UNCHANGED <<scans, images, file, guids>>
     [] e.op = "root" -> /\ e.r = "ok"
                         /\ e.ret = (mode = "read")
                         /\ e.ret => /\ e.formatName = "ASTM%20E57%203D%20Imaging%20Data%20File"
                                     /\ e.major = 1 /\ e.minor = 0 /\ e.library # ""
                                     /\ (IF file.guid = "" THEN e.guid # "" /\ e.guid \notin guids ELSE e.guid = file.guid)
                                     /\ e.meta = file.meta
                                     /\ e.date = file.date /\ e.atomic = file.atomic
                                     /\ e.scans = Len(scans) /\ e.images = Len(images)
                                     /\ e.nscans = Len(scans) /\ e.nimages = Len(images)
                         /\ UNCHANGED tvars
     [] e.op = "rhead" -> /\ e.r = "ok"
                          /\ e.ret = (In(e.i, scans) /\ mode = "read")
                          /\ e.ret => ScanOk(scans[e.i + 1], e.s, e.got, e.dev)
                          /\ UNCHANGED tvars
     [] e.op = "sizes" -> /\ e.r = "ok"
                          /\ IF In(e.i, scans) /\ mode = "read" THEN SizesOk(scans[e.i + 1], e.num, e)
                             ELSE ~e.ret /\ e.row = 0 /\ e.col = 0 /\ e.points = 0 /\ e.groups = 0 /\ e.count = 0 /\ ~e.byCol
                          /\ UNCHANGED tvars
     [] e.op = "rpoints" -> /\ e.r = "ok"
                            /\ PointsOk(scans[e.i + 1], e.kind, e.n, e.cols)
                            /\ UNCHANGED tvars
     [] e.op = "rgroups" -> /\ e.r = "ok"
                            /\ e.ret = (In(e.i, scans) /\ scans[e.i + 1].h["grp.id"] # "")
                            /\ LET q == IF e.ret THEN scans[e.i + 1].groups ELSE <<>>
                                   col(k, out) == Filled([j \in 1..Len(q) |-> q[j][k]], e.n, -9) = (IF e.omit = k THEN [j \in 1..e.n |-> IF j <= Len(q) THEN q[j][k] ELSE -9] ELSE out)
                               IN col(1, e.ids) /\ col(2, e.starts) /\ col(3, e.counts)
                            /\ UNCHANGED tvars
     \* images
     [] e.op = "image" -> /\ e.r = "ok"
                          /\ e.i = Len(images)
                          /\ ImageAfterOk(e.h0, e.h1)
                          /\ NewGuid(e.h0, e.h1)
                          /\ AddImage(e.h1, e.num)
                          /\ guids' = guids \cup {e.h1["guid"]}
                          /\ UNCHANGED file
     [] e.op = "imgdata" -> IF ~In(e.i, images) \/ ~Exists(images[e.i + 1], e.proj, e.type)
                            THEN e.r = "ok" /\ e.n = 0 /\ UNCHANGED tvars
                            ELSE /\ Outcome(e.r, TransferErrs(images[e.i + 1], e.type, e.start, e.count))
                                 /\ IF e.r = "ok"
                                    THEN /\ e.n = e.count
                                         /\ WriteImage(e.i + 1, [type |-> e.type, start |-> e.start, count |-> e.count, v |-> e.v])
                                    ELSE UNCHANGED vars
                                 /\ UNCHANGED <<file, guids>>
     \* header and content in one call
     [] e.op = "imgall" -> LET im == [h |-> e.h1, num |-> e.num, ws |-> <<>>]
                               w == [type |-> e.type, start |-> e.start, count |-> e.count, v |-> e.v]
                               ex == Exists(im, e.proj, e.type)
                           IN /\ e.r = "ok"
                              /\ ImageAfterOk(e.h0, e.h1)
                              /\ NewGuid(e.h0, e.h1)
                              /\ e.n = (IF ex THEN e.count ELSE 0)
                              /\ images' = Append(images, [im EXCEPT !.ws = IF ex THEN <<w>> ELSE <<>>])
                              /\ guids' = guids \cup {e.h1["guid"]}
                              /\ UNCHANGED <<scans, mode, file>>
     [] e.op = "rimage" -> /\ e.r = "ok"
                           /\ e.ret = (In(e.i, images) /\ mode = "read")
                           /\ e.ret => ImageOk(images[e.i + 1].h, e.got)
                           /\ UNCHANGED tvars
     [] e.op = "rimgsizes" -> /\ e.r = "ok"
                              /\ IF In(e.i, images) THEN ImageSizesOk(images[e.i + 1], e) ELSE ~e.ret
                              /\ UNCHANGED tvars
     [] e.op = "rimgdata" -> /\ e.r = "ok"
                             /\ IF ~In(e.i, images) \/ ~Exists(images[e.i + 1], e.proj, e.type)
                                THEN e.res = "ok" /\ e.n = 0 /\ (e.count = 0 \/ e.runs = <<<<238, e.count>>>>)
                                ELSE /\ Outcome(e.res, TransferErrs(images[e.i + 1], e.type, e.start, e.count))
                                     /\ e.res = "ok" => /\ e.n = e.count
                                                        /\ RunsFrom(e.runs, 1, e.start, images[e.i + 1].ws, e.type)
                             /\ UNCHANGED tvars
     [] OTHER -> FALSE

TraceInit == /\ l = 1 /\ scans = <<>> /\ images = <<>> /\ mode = "none" /\ guids = {}
             /\ file = [guid |-> "", meta |-> "", date |-> Zero, atomic |-> 0]
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<l, tvars>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED", d>>, FALSE)
=============================================================================

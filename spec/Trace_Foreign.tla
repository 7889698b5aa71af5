---------------------------- MODULE Trace_Foreign ----------------------------
(* Do recorded reads of files of other writers conform to Foreign? *)
EXTENDS Foreign, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, file      \* file: index of the event that describes the file

IsError(r) == Len(r) > 5 /\ SubSeq(r, 1, 5) = "Error"
In(i, q) == i >= 0 /\ i < Len(q)

Step(e) ==
   CASE e.op = "reset" -> file' = 0
     [] e.op = "setup" -> e.r = "ok" /\ UNCHANGED file
     \* root: elements of the root; scans and images: their elements
     [] e.op = "file" -> e.r = "ok" /\ file' = l
     [] e.op = "root" -> LET el == Trace[file].root IN
                         /\ e.r = "ok" /\ e.ret
                         /\ e.formatName = el["formatName"].v /\ e.guid = el["guid"].v
                         /\ e.major = el["versionMajor"].n /\ e.minor = el["versionMinor"].n
                         /\ e.library = Value(el, "e57LibraryVersion", "")
                         /\ e.meta = Value(el, "coordinateMetadata", "")
                         /\ e.date = Value(el, "creationDateTime/dateTimeValue", Zero)
                         /\ ToString(e.atomic) = Value(el, "creationDateTime/isAtomicClockReferenced", "0")
                         /\ e.scans = Len(Trace[file].scans) /\ e.nscans = e.scans
                         /\ e.images = Len(Trace[file].images) /\ e.nimages = e.images
                         /\ UNCHANGED file
     [] e.op = "rhead" -> /\ e.r = "ok"
                          /\ e.ret = In(e.i, Trace[file].scans)
                          /\ e.ret => ForeignScanOk(Trace[file].scans[e.i + 1], e.got)
                          /\ UNCHANGED file
     [] e.op = "sizes" -> /\ e.r = "ok"
                          /\ IF In(e.i, Trace[file].scans) THEN ForeignSizesOk(Trace[file].scans[e.i + 1], e) ELSE ~e.ret
                          /\ UNCHANGED file
     [] e.op = "values" -> /\ e.r = "ok"
                           /\ e.n = Trace[file].scans[e.i + 1]["points"].n
                           /\ \A k \in 1..Len(e.cols) : ForeignColumnOk(e.cols[k].f, e.kind, e.cols[k])
                           /\ UNCHANGED file
     \* want: the columns of the groups that the file has, filled up as the buffers were
     [] e.op = "rgroups" -> /\ e.r = "ok"
                            /\ e.ret = (In(e.i, Trace[file].scans) /\ Has(Trace[file].scans[e.i + 1], "groups"))
                            /\ e.ids = e.want[1] /\ e.starts = e.want[2] /\ e.counts = e.want[3]
                            /\ UNCHANGED file
     [] e.op = "rimage" -> /\ e.r = "ok"
                           /\ e.ret = In(e.i, Trace[file].images)
                           /\ e.ret => ForeignImageOk(Trace[file].images[e.i + 1], e.got)
                           /\ UNCHANGED file
     [] e.op = "rimgsizes" -> /\ e.r = "ok"
                              /\ IF In(e.i, Trace[file].images) THEN ForeignImageSizesOk(Trace[file].images[e.i + 1], e) ELSE ~e.ret
                              /\ UNCHANGED file
     \* every blob is filled with one value
     [] e.op = "rimgdata" -> /\ e.r = "ok"
                             /\ LET ims == Trace[file].images
                                    p == BlobPath(e.proj, e.type)
                                IN IF ~In(e.i, ims) \/ ~Has(ims[e.i + 1], p)
                                   THEN e.res = "ok" /\ e.n = 0 /\ (e.count = 0 \/ e.runs = <<<<238, e.count>>>>)
                                   ELSE LET b == ims[e.i + 1][p] IN
                                        IF e.start < 0 \/ e.start + e.count > b.n THEN e.res = "ErrorBadAPIArgument"
                                        ELSE e.res = "ok" /\ e.n = e.count /\ (e.count = 0 \/ e.runs = <<<<b.fill, e.count>>>>)
                             /\ UNCHANGED file
     \* a file that breaks the data model: an answer, whatever it is
     [] e.op = "odd" -> /\ \A r \in {e.r, e.res} : r = "ok" \/ IsError(r)
                        /\ UNCHANGED file
     [] OTHER -> FALSE

TraceInit == l = 1 /\ file = 0 /\ scans = <<>> /\ images = <<>> /\ mode = "read"
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l]) /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<l, file, vars>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED", d>>, FALSE)
=============================================================================

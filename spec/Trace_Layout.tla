---------------------------- MODULE Trace_Layout ----------------------------
(* Do recorded files and reads conform to Layout? *)
EXTENDS Layout, Xml, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l,
          file   \* index of the event that describes the current file

Step(e) ==
   CASE e.op = "reset" -> file' = 0
     [] e.op = "setup" -> e.r = "ok" /\ UNCHANGED file
     [] e.op = "layout" -> FileOk(e) /\ file' = l
     [] e.op = "written" -> WrittenOk(e) /\ file' = l
     [] e.op = "xml" -> XmlOk57(e.found, e.api, e.ns, e.exts) /\ UNCHANGED file
     [] e.op = "open" -> e.r = "ok" /\ UNCHANGED file
     [] e.op = "readvec" -> /\ file > 0
                            /\ e.r = "ok"
                            /\ ReadOk(Trace[file].secs[e.sec], e.cols, e.calls, e.v)
                            /\ UNCHANGED file
     [] e.op = "readblob" -> /\ file > 0
                             /\ e.r = "ok"
                             /\ e.v = Trace[file].secs[e.sec].vals
                             /\ UNCHANGED file
     [] OTHER -> FALSE

TraceInit == l = 1 /\ file = 0
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<l, file>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED", d>>, FALSE)
=============================================================================

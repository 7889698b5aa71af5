---------------------------- MODULE Trace_Commit ----------------------------
(* Do recorded crash points and faults conform to Commit? *)
EXTENDS Commit, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

IsError(r) == Len(r) > 5 /\ SubSeq(r, 1, 5) = "Error"
Answer(r) == r = "ok" \/ IsError(r)

\* runs of equal states of the disk: <<phase, outcome, how many>>
RunsOk(q) == /\ \A i \in 1..Len(q) : CrashOk(q[i][1], q[i][2])
             /\ \A i \in 2..Len(q) : OnceOk(q[i][1], q[i - 1][2], q[i][2])

\* columns of a vector are compared by name
Content(got, want) == /\ Len(got) = Len(want)
                      /\ \A i \in 1..Len(want) : \E j \in 1..Len(got) : got[j] = want[i]

Step(e) ==
   CASE e.op = "reset" -> TRUE
     [] e.op = "setup" -> e.r = "ok"
     \* every state of the disk during the life of one file
     [] e.op = "crash" -> e.r = "ok" /\ (e.journaled => RunsOk(e.runs))
     \* the file after the end: closed -> its content
     [] e.op = "final" -> IF e.phase = 2 THEN e.open = "ok" /\ e.tree /\ Content(e.got, e.want)
                          ELSE e.open # "ok"
     \* a write program under faults
     [] e.op = "fault" -> /\ \A i \in 1..Len(e.results) : Answer(e.results[i])
                          /\ FaultOk(e.fired, e.reported, e.after, e.out)
                          /\ e.fds = 0
     \* reading under faults
     [] e.op = "readfault" -> /\ e.r = "ok"
                              /\ \A i \in 1..Len(e.items) : Answer(e.items[i].r) /\ ReadOk(e.fired, e.items[i].r, e.items[i].same)
                              /\ e.fds = 0
     [] OTHER -> FALSE

TraceInit == l = 1 /\ disk = <<>> /\ phase = 0 /\ todo = {} /\ faults = 0 /\ reported = FALSE /\ alive = TRUE /\ last = ""
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l]) /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<l, vars>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED", d>>, FALSE)
=============================================================================

---------------------------- MODULE Trace_Pages ----------------------------
(* Do recorded reads of damaged files conform to Pages? *)
EXTENDS Pages, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, file

Set(q) == {q[i] : i \in 1..Len(q)}
Item(f, i, got) == [must |-> Set(f.items[i].must), may |-> Set(f.items[i].may), last |-> Set(f.items[i].last),
                    r |-> got.r, correct |-> got.correct]

Step(e) ==
   CASE e.op = "reset" -> file' = 0
     [] e.op = "setup" -> e.r = "ok" /\ UNCHANGED file
     \* page sets of the items; item 1 is the opening of the file
     [] e.op = "file" -> file' = l
     [] e.op = "scan" ->
           /\ file > 0
           /\ LET f == Trace[file]
                  d == Set(e.damaged)
              IN /\ OpenOk(Item(f, 1, e.items[1]), d, e.crc, e.policy)
                 /\ e.items[1].r = "ok" =>
                       /\ Len(e.items) = Len(f.items)
                       /\ \A i \in 2..Len(f.items) :
                             IF e.crc \/ d \cap Set(f.items[1].may) = {}
                             THEN ItemOk(Item(f, i, e.items[i]), d, e.crc, e.policy)
                             \* the description of the items is damaged itself
                             ELSE e.policy = 0 => e.items[i].r # "ErrorBadChecksum"
           /\ UNCHANGED file
     [] e.op = "share" -> ShareOk(e.k, e.policy, Set(e.noticed)) /\ UNCHANGED file
     \* the same bytes on disk and in a buffer (P07)
     [] e.op = "pair" -> /\ e.disk = e.mem
                         /\ e.intact
                         /\ e.valid => e.disk.open = "ok"
                         /\ UNCHANGED file
     [] OTHER -> FALSE

TraceInit == l = 1 /\ file = 0 /\ damaged = {} /\ policy = 0 /\ done = 0 /\ failed = 0 /\ delivered = 0
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l]) /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<l, file, vars>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED", d>>, FALSE)
=============================================================================

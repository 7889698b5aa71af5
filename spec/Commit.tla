------------------------------- MODULE Commit -------------------------------
(* Writing a file, dying in between (P14), and failing system calls (P15).

   The disk holds the pages of one file. Page 0 carries the header. The file opens if its header is
   complete; the header is written once everything else is in its place. Every call of the writer may
   fail or transfer only a part, and the process may die between any two of them.                   *)
EXTENDS Integers, Sequences, FiniteSets

(* ---- what may be observed (used by Trace_Commit) ----
   A state of the disk is "absent", "refused" by the reader, "complete" (everything that was
   written is read back) or "wrong" (it opens, but tells something else).                           *)
Outcomes == {"absent", "refused", "complete", "wrong"}

\* phase of the writer: 0 writing, 1 in close, 2 close has returned, 3 cancelled or dropped
CrashOk(phase, o) == CASE phase = 0 -> o \in {"absent", "refused"}
                       [] phase = 1 -> o \in {"refused", "complete"}
                       [] phase = 2 -> o = "complete"
                       [] OTHER -> o \in {"absent", "refused"}
\* the commit happens once: o1 is followed by o2 in the same close
OnceOk(phase, o1, o2) == phase \in {1, 2} /\ o1 = "complete" => o2 = "complete"

\* a run with faults. reported: some call threw; after: what the user did then
FaultOk(fired, reported, after, o) ==
   /\ fired = 0 => ~reported
   /\ ~reported => o = "complete"
   /\ reported /\ after \in {"stop", "cancel"} => o # "wrong"

\* reading with faults: one result of reading an item
ReadOk(fired, r, same) == /\ fired = 0 => r = "ok"
                          /\ r = "ok" => same

(* ---- a writer ---- *)
CONSTANTS N,          \* pages 0..N
          Faults,     \* how many calls fail
          HasOld      \* a valid older file of this name may exist

VARIABLES disk,       \* page -> "none" "old" "blank" "torn" "new"
          phase, todo, faults, reported, alive, last

vars == <<disk, phase, todo, faults, reported, alive, last>>
Pages == 0..N

Opens(d) == d[0] \in {"old", "new"}
State(d) == IF \A p \in Pages : d[p] = "none" THEN "absent"
            ELSE IF ~Opens(d) THEN "refused"
            ELSE IF \A p \in Pages : d[p] = "new" THEN "complete" ELSE "wrong"

\* todo: pages that still have to be written; page 0 is the header
Init == /\ disk \in IF HasOld THEN {[p \in Pages |-> "none"], [p \in Pages |-> "old"]} ELSE {[p \in Pages |-> "none"]}
        /\ phase = -1 /\ todo = Pages /\ faults = 0 /\ reported = FALSE /\ alive = TRUE /\ last = "absent"

Fail == faults < Faults /\ faults' = faults + 1 /\ reported' = TRUE
Fine == UNCHANGED <<faults, reported>>

Create == /\ phase = -1 /\ ~reported
          /\ \/ Fine /\ disk' = [p \in Pages |-> IF p = 0 THEN "blank" ELSE "none"] /\ phase' = 0
             \/ Fail /\ UNCHANGED <<disk, phase>>
          /\ UNCHANGED <<todo, alive>>

\* data pages are written in any order, also more than once
WritePage(p) == /\ phase \in {0, 1} /\ ~reported /\ p # 0 /\ 0 \in todo
                /\ \/ Fine /\ disk' = [disk EXCEPT ![p] = "new"] /\ todo' = todo \ {p}
                   \/ Fail /\ UNCHANGED todo /\ \E v \in {disk[p], "torn"} : disk' = [disk EXCEPT ![p] = v]
                /\ UNCHANGED <<phase, alive>>
BeginClose == phase = 0 /\ ~reported /\ phase' = 1 /\ UNCHANGED <<disk, todo, faults, reported, alive>>
WriteHeader == /\ phase = 1 /\ ~reported /\ todo = {0}
               /\ \/ Fine /\ disk' = [disk EXCEPT ![0] = "new"] /\ todo' = {}
                  \/ Fail /\ UNCHANGED todo /\ \E v \in {disk[0], "torn"} : disk' = [disk EXCEPT ![0] = v]
               /\ UNCHANGED <<phase, alive>>
CloseFile == /\ phase = 1 /\ todo = {} /\ ~reported
             /\ \/ Fine /\ phase' = 2
                \/ Fail /\ UNCHANGED phase
             /\ UNCHANGED <<disk, todo, alive>>
\* removing the file may fail as well: nothing is reported then
Drop == /\ phase \in {0, 1}
        /\ phase' = 3
        /\ \/ disk' = [p \in Pages |-> "none"] /\ UNCHANGED faults
           \/ faults < Faults /\ faults' = faults + 1 /\ UNCHANGED disk
        /\ UNCHANGED <<todo, reported, alive>>
Die == alive' = FALSE /\ UNCHANGED <<disk, phase, todo, faults, reported>>

Next == /\ alive
        /\ last' = State(disk)
        /\ Create \/ BeginClose \/ WriteHeader \/ CloseFile \/ Drop \/ Die \/ \E p \in Pages : WritePage(p)
Spec == Init /\ [][Next]_vars

(* ---- properties ---- *)
CrashSafe == phase \in {0, 1, 2} => CrashOk(phase, State(disk))
Once == phase \in {1, 2} => OnceOk(phase, last, State(disk))
NoSilentLoss == phase = 2 => FaultOk(faults, reported, "none", State(disk))
NoWrongFile == phase = 3 => FaultOk(1, TRUE, "stop", State(disk))
=============================================================================

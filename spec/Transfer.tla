------------------------------ MODULE Transfer ------------------------------
(* Records of compressed vectors as a user sees them (properties P01 and P02).

   A record is identified by its index: the k-th record accepted by a writer
   has index k-1, whatever its field values are.  The harness concretises an
   index to field values by a fixed function and maps values read back to
   indices, so "the records first..first+n-1 in field f" is observable.

   The model knows nothing about packets, pages or bits: it is the contract
   that all of those together have to implement.                            *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Vecs,        \* names of compressed vectors
         Sessions     \* names of reader sessions

VARIABLES recs,       \* recs[v]: number of records of v, -1 if v does not exist
          phase,      \* "none", "write", "read", "closed": state of the file
          writer,     \* open writer: [v, n, cap], or NoWriter
          reader      \* reader[s]: [v, pos, cap, nf], or NoReader

tvars == <<recs, phase, writer, reader>>

NoWriter == [v |-> "-", n |-> -1, cap |-> -1]
NoReader == [v |-> "-", pos |-> -1, cap |-> -1, nf |-> 0]

TInit == /\ recs = [v \in Vecs |-> -1]
         /\ phase = "none"
         /\ writer = NoWriter
         /\ reader = [s \in Sessions |-> NoReader]

Min2(a, b) == IF a < b THEN a ELSE b

NoSessions == writer = NoWriter /\ \A s \in Sessions : reader[s] = NoReader

OpenForWrite == /\ phase = "none"
                /\ phase' = "write"
                /\ UNCHANGED <<recs, writer, reader>>

CreateVector(v) == /\ phase = "write"
                   /\ recs[v] = -1
                   /\ recs' = [recs EXCEPT ![v] = 0]
                   /\ UNCHANGED <<phase, writer, reader>>

OpenWriter(v, cap) == /\ phase = "write"
                      /\ recs[v] = 0
                      /\ NoSessions
                      /\ writer' = [v |-> v, n |-> 0, cap |-> cap]
                      /\ UNCHANGED <<recs, phase, reader>>

(* A block of n records; the record count of the vector is only defined once
   the writer is closed, so it is not updated here.                         *)
Write(start, n, cap) == /\ writer # NoWriter
                        /\ n <= cap
                        /\ start = writer.n
                        /\ writer' = [writer EXCEPT !.n = @ + n, !.cap = cap]
                        /\ UNCHANGED <<recs, phase, reader>>

CloseWriter == /\ writer # NoWriter
               /\ recs' = [recs EXCEPT ![writer.v] = writer.n]
               /\ writer' = NoWriter
               /\ UNCHANGED <<phase, reader>>

CloseFile == /\ phase \in {"write", "read"}
             /\ NoSessions
             /\ phase' = "closed"
             /\ UNCHANGED <<recs, writer, reader>>

Reopen == /\ phase = "closed"
          /\ phase' = "read"
          /\ UNCHANGED <<recs, writer, reader>>

(* childCount() of a vector whose writer is closed *)
Count(v, c) == /\ phase \in {"write", "read"}
               /\ recs[v] >= 0
               /\ (writer = NoWriter \/ writer.v # v)
               /\ c = recs[v]
               /\ UNCHANGED tvars

(* One reader at a time is what the library offers *)
OpenReader(s, v, cap, nf) == /\ phase \in {"write", "read"}
                             /\ NoSessions
                             /\ recs[v] >= 0
                             /\ reader' = [reader EXCEPT ![s] = [v |-> v, pos |-> 0, cap |-> cap, nf |-> nf]]
                             /\ UNCHANGED <<recs, phase, writer>>

(* What a read call has to deliver: the next min(capacity, remaining) records,
   the same in every field, at the start of the buffers, nothing else touched *)
Expected(s, cap) == Min2(cap, recs[reader[s].v] - reader[s].pos)

ExpectedRuns(s, n) == [f \in 1..reader[s].nf |-> IF n = 0 THEN << >> ELSE << <<reader[s].pos, n>> >>]

Read(s, cap, n, runs, clean) == /\ reader[s] # NoReader
                                /\ n = Expected(s, cap)
                                /\ runs = ExpectedRuns(s, n)
                                /\ clean
                                /\ reader' = [reader EXCEPT ![s].pos = @ + n, ![s].cap = cap]
                                /\ UNCHANGED <<recs, phase, writer>>

CloseReader(s) == /\ reader[s] # NoReader
                  /\ reader' = [reader EXCEPT ![s] = NoReader]
                  /\ UNCHANGED <<recs, phase, writer>>

(* A data packet has 64 KiB: its header, a length of 16 bits for every field, and data.
   As many fields as leave room for data can be written; more are refused           *)
MaxFields == (65536 - 6 - 1) \div 2

ManyFields(n, rec, w, count, same) == IF n <= MaxFields THEN w = "ok" /\ count = rec /\ same ELSE w # "ok"
=============================================================================

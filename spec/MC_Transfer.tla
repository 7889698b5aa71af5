---------------------------- MODULE MC_Transfer ----------------------------
(* Exhaustive exploration of the record contract in a small configuration,
   with the sequence of everything delivered to a session as history.       *)
EXTENDS Transfer

CONSTANTS MaxRecs, MaxCap, Fields

VARIABLES got, closedReads   \* got[s]: indices delivered to s so far

mvars == <<recs, phase, writer, reader, got, closedReads>>

MInit == TInit /\ got = [s \in Sessions |-> << >>] /\ closedReads = 0

Same == UNCHANGED <<got, closedReads>>

MNext == \/ OpenForWrite /\ Same
         \/ \E v \in Vecs : CreateVector(v) /\ Same
         \/ \E v \in Vecs, c \in 1..MaxCap : OpenWriter(v, c) /\ Same
         \/ \E c \in 1..MaxCap : \E n \in 0..c :
               /\ writer.n + n <= MaxRecs
               /\ Write(writer.n, n, c) /\ Same
         \/ CloseWriter /\ Same
         \/ CloseFile /\ Same
         \/ Reopen /\ Same
         \/ \E v \in Vecs, s \in Sessions, c \in 1..MaxCap :
               /\ closedReads < 2
               /\ OpenReader(s, v, c, Fields)
               /\ got' = [got EXCEPT ![s] = << >>]
               /\ UNCHANGED closedReads
         \/ \E s \in Sessions, c \in 1..MaxCap :
               /\ reader[s] # NoReader
               /\ LET n == Expected(s, c) IN
                    /\ Read(s, c, n, ExpectedRuns(s, n), TRUE)
                    /\ got' = [got EXCEPT ![s] = @ \o [i \in 1..n |-> reader[s].pos + i - 1]]
                    /\ UNCHANGED closedReads
         \/ \E s \in Sessions : CloseReader(s) /\ closedReads' = closedReads + 1 /\ UNCHANGED got

MSpec == MInit /\ [][MNext]_mvars

(* What was delivered is the records in order, without gap or repetition *)
InOrder == \A s \in Sessions : \A i \in 1..Len(got[s]) : got[s][i] = i - 1
(* and never more than there are *)
NoExtra == \A s \in Sessions : reader[s] # NoReader => Len(got[s]) = reader[s].pos /\ reader[s].pos <= recs[reader[s].v]
Exclusive == (writer # NoWriter => \A s \in Sessions : reader[s] = NoReader)
             /\ Cardinality({s \in Sessions : reader[s] # NoReader}) <= 1
(* records never change once their writer is closed *)
Stable == [][\A v \in Vecs : recs[v] > 0 => recs'[v] = recs[v]]_mvars
=============================================================================

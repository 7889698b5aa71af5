------------------------------ MODULE MC_Blob ------------------------------
(* Runs against plain arrays: arr[b] is maintained byte by byte. *)
EXTENDS Blob

CONSTANTS Names, Lens, Tags

VARIABLE arr

Starts == -1..(CHOOSE m \in Lens : \A k \in Lens : k <= m) + 1
Pick(errs) == IF errs = {} THEN {"ok"} ELSE errs

Init == BInit /\ arr = EmptyFun
Next ==
    \/ phase = "none" /\ OpenWrite /\ UNCHANGED arr
    \/ \E b \in Names, n \in Lens \cup {-1} : b \notin DOMAIN blobs /\ \E r \in Pick(NewErrors(n)) :
         /\ New(b, n, r)
         /\ arr' = IF r = "ok" THEN Put(arr, b, [i \in 0..(n - 1) |-> 0]) ELSE arr
    \/ \E b \in DOMAIN blobs : ~blobs[b].att /\ Attach(b, b) /\ UNCHANGED arr
    \/ \E b \in DOMAIN blobs, s \in Starts, n \in Starts, t \in Tags : \E r \in Pick(WriteErrors(b, s, n)) :
         /\ Write(b, s, n, t, r)
         /\ arr' = IF r = "ok" THEN [arr EXCEPT ![b] = [i \in DOMAIN @ |-> IF i >= s /\ i < s + n THEN t ELSE @[i]]] ELSE arr
    \/ phase = "write" /\ Close /\ UNCHANGED arr
    \/ Reopen /\ UNCHANGED arr

Spec == Init /\ [][Next]_<<bvars, arr>>

Meaning == \A b \in DOMAIN blobs :
    LET a == BlobArray(blobs[b].runs) IN
    /\ Len(a) = blobs[b].len
    /\ \A i \in 1..Len(a) : a[i] = arr[b][i - 1]

Maximal == \A b \in DOMAIN blobs :
    LET r == blobs[b].runs IN
    /\ \A i \in 1..Len(r) : r[i][2] > 0
    /\ \A i \in 1..(Len(r) - 1) : r[i][1] # r[i + 1][1]

Slices == \A b \in DOMAIN blobs, s \in Starts, n \in Starts :
    InBounds(b, s, n) => BlobArray(Slice(blobs[b].runs, s, n)) = SubSeq(BlobArray(blobs[b].runs), s + 1, s + n)

(* only a successful write to that blob, while attached and writing, changes it *)
Guarded == [][\A b \in DOMAIN blobs : blobs'[b].runs # blobs[b].runs => phase = "write" /\ blobs[b].att]_<<bvars, arr>>
=============================================================================

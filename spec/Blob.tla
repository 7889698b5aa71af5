-------------------------------- MODULE Blob --------------------------------
(* Blobs as byte arrays (property P18).

   A byte written with tag t is seen as t when it is read back; 0 is the
   initial value.  The content of a blob is kept as maximal runs <<tag, count>>,
   which is how the harness reports what it reads; BlobArray states what the
   runs mean.

   phase   "write", "closed", "read"
   blobs   blobs[b] = [len, att, runs, name]
   vecs    vecs[v] = number of records the compressed vector holds
   tree    description of the element tree when the file was closed          *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES phase, blobs, vecs, tree
bvars == <<phase, blobs, vecs, tree>>

EmptyFun == [x \in {} |-> x]
BInit == phase = "none" /\ blobs = EmptyFun /\ vecs = EmptyFun /\ tree = ""

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
When(c, e) == IF c THEN {e} ELSE {}
Outcome(errs, r) == IF errs = {} THEN r = "ok" ELSE r \in errs

-----------------------------------------------------------------------------
(* Runs *)

RECURSIVE TakeRuns(_, _), DropRuns(_, _)

TakeRuns(rs, n) == IF n = 0 \/ rs = << >> THEN << >>
                   ELSE IF rs[1][2] > n THEN << <<rs[1][1], n>> >>
                   ELSE <<rs[1]>> \o TakeRuns(Tail(rs), n - rs[1][2])

DropRuns(rs, n) == IF n = 0 \/ rs = << >> THEN rs
                   ELSE IF rs[1][2] > n THEN << <<rs[1][1], rs[1][2] - n>> >> \o Tail(rs)
                   ELSE DropRuns(Tail(rs), n - rs[1][2])

(* concatenation keeps runs maximal *)
Cat(a, b) == IF a # << >> /\ b # << >> /\ a[Len(a)][1] = b[1][1]
             THEN SubSeq(a, 1, Len(a) - 1) \o << <<b[1][1], a[Len(a)][2] + b[1][2]>> >> \o Tail(b)
             ELSE a \o b

Run(t, n) == IF n = 0 THEN << >> ELSE << <<t, n>> >>

Overwrite(rs, start, n, t) == Cat(Cat(TakeRuns(rs, start), Run(t, n)), DropRuns(rs, start + n))

Slice(rs, start, n) == TakeRuns(DropRuns(rs, start), n)

RECURSIVE BlobArray(_)
BlobArray(rs) == IF rs = << >> THEN << >> ELSE [i \in 1..rs[1][2] |-> rs[1][1]] \o BlobArray(Tail(rs))

-----------------------------------------------------------------------------
OpenWrite == /\ phase' = "write"
             /\ UNCHANGED <<blobs, vecs, tree>>

NewErrors(n) == When(phase = "closed", "ErrorImageFileNotOpen")
                \cup When(phase = "read", "ErrorFileReadOnly")
                \cup When(n < 0, "ErrorBadAPIArgument")

New(b, n, r) == /\ Outcome(NewErrors(n), r)
                /\ blobs' = IF r = "ok" THEN Put(blobs, b, [len |-> n, att |-> FALSE, runs |-> Run(0, n), name |-> ""]) ELSE blobs
                /\ UNCHANGED <<phase, vecs, tree>>

Attach(b, name) == /\ phase = "write"
                   /\ blobs' = [blobs EXCEPT ![b].att = TRUE, ![b].name = name]
                   /\ UNCHANGED <<phase, vecs, tree>>

InBounds(b, start, n) == start >= 0 /\ n >= 0 /\ start <= blobs[b].len /\ n <= blobs[b].len - start

WriteErrors(b, start, n) == When(phase = "closed", "ErrorImageFileNotOpen")
                            \cup When(phase = "read", "ErrorFileReadOnly")
                            \cup When(~blobs[b].att, "ErrorNodeUnattached")
                            \cup When(~InBounds(b, start, n), "ErrorBadAPIArgument")

Write(b, start, n, t, r) ==
    /\ Outcome(WriteErrors(b, start, n), r)
    /\ blobs' = IF r = "ok" THEN [blobs EXCEPT ![b].runs = Overwrite(@, start, n, t)] ELSE blobs
    /\ UNCHANGED <<phase, vecs, tree>>

ReadErrors(b, start, n) == When(phase = "closed", "ErrorImageFileNotOpen")
                           \cup When(~InBounds(b, start, n), "ErrorBadAPIArgument")

Read(b, start, n, r, runs) == /\ Outcome(ReadErrors(b, start, n), r)
                              /\ r = "ok" => runs = Slice(blobs[b].runs, start, n)
                              /\ UNCHANGED bvars

ByteCount(b, r, v) == /\ Outcome(When(phase = "closed", "ErrorImageFileNotOpen"), r)
                      /\ r = "ok" => v = blobs[b].len
                      /\ UNCHANGED bvars

(* Everything else in the file *)
Vector(v, n) == /\ phase = "write"
                /\ vecs' = Put(vecs, v, n)
                /\ UNCHANGED <<phase, blobs, tree>>

ReadVector(v, n, good) == /\ phase \in {"write", "read"}
                          /\ n = vecs[v] /\ good
                          /\ UNCHANGED bvars

SeeTree(t) == /\ phase \in {"write", "read"}
              /\ phase = "read" => t = tree
              /\ tree' = t
              /\ UNCHANGED <<phase, blobs, vecs>>

Close == /\ phase' = "closed"
         /\ UNCHANGED <<blobs, vecs, tree>>

Reopen == /\ phase = "closed"
          /\ phase' = "read"
          /\ UNCHANGED <<blobs, vecs, tree>>

(* After reopen a blob is found by the name under which it was attached *)
Find(b, old, name) == /\ phase = "read"
                      /\ blobs[old].att /\ blobs[old].name = name
                      /\ blobs' = Put(blobs, b, blobs[old])
                      /\ UNCHANGED <<phase, vecs, tree>>
=============================================================================

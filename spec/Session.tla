------------------------------ MODULE Session ------------------------------
(* Reader and writer sessions (property P13).

   files[f]   [open, mode]                        an ImageFile
   vecs[v]    [f, path, att, recs, sect, leaves, kinds, bad, lost]
              a compressed vector; leaves maps the names by which a leaf can be addressed
              to the leaf, kinds the leaves to "str" or "num"; bad: how its section in
              the file is damaged; lost: a writer of it failed, its records are undefined
   sess[s]    [kind, v, open, bufs, n, broken]    n: records written, or read position;
              broken: a transfer failed midway, nothing more can be transferred
   hs[h]      the session a handle refers to (handles can be copied)
   saved[p]   what the closed file at path p holds for each vector path

   A buffer is [p, cap, sig, rep]: addressed path, capacity, everything else that must
   not change between calls, and whether it holds strings or numbers.  An operation that violates several rules may report
   any one of them; it succeeds only if it violates none.                        *)
EXTENDS Integers, Sequences, FiniteSets, Functions

VARIABLES files, vecs, sess, hs, saved
svars == <<files, vecs, sess, hs, saved>>

EmptyFun == [x \in {} |-> x]

SInit == files = EmptyFun /\ vecs = EmptyFun /\ sess = EmptyFun /\ hs = EmptyFun /\ saved = EmptyFun

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
When(c, e) == IF c THEN {e} ELSE {}
Outcome(errs, r) == IF errs = {} THEN r = "ok" ELSE r \in errs

(* Sessions that count: created and not yet closed or dropped *)
Active(f, k) == {s \in DOMAIN sess : sess[s].open /\ sess[s].kind = k /\ vecs[sess[s].v].f = f}
Count(f, k) == Cardinality(Active(f, k))

IsOpen(f) == files[f].open

-----------------------------------------------------------------------------
(* Files and vectors *)

OpenWrite(f) == /\ files' = Put(files, f, [open |-> TRUE, mode |-> "w"])
                /\ UNCHANGED <<vecs, sess, hs, saved>>

NewVec(v, f, path, leaves, kinds) ==
    /\ IsOpen(f)
    /\ vecs' = Put(vecs, v, [f |-> f, path |-> path, att |-> FALSE, recs |-> 0, sect |-> FALSE, leaves |-> leaves,
                              kinds |-> kinds, bad |-> "", lost |-> FALSE])
    /\ UNCHANGED <<files, sess, hs, saved>>

Attach(v) == /\ vecs' = [vecs EXCEPT ![v].att = TRUE]
             /\ UNCHANGED <<files, sess, hs, saved>>

(* Closing the file keeps what the closed writers have stored.  Records of a
   writer that is still open are not stored, and its close says so.          *)
CloseFile(f, p) ==
    /\ LET mine == {v \in DOMAIN vecs : vecs[v].f = f /\ vecs[v].att}
       IN saved' = IF files[f].open /\ files[f].mode = "w"
                   THEN Put(saved, p, [q \in {vecs[v].path : v \in mine} |->
                                         vecs[CHOOSE v \in mine : vecs[v].path = q]])
                   ELSE saved
    /\ files' = [files EXCEPT ![f].open = FALSE]
    /\ UNCHANGED <<vecs, sess, hs>>

CancelFile(f) == /\ files' = [files EXCEPT ![f].open = FALSE]
                 /\ UNCHANGED <<vecs, sess, hs, saved>>

OpenRead(f, p) == /\ p \in DOMAIN saved
                  /\ files' = Put(files, f, [open |-> TRUE, mode |-> "r"])
                  /\ UNCHANGED <<vecs, sess, hs, saved>>

GetVec(v, f, p, path) == /\ IsOpen(f)
                         /\ path \in DOMAIN saved[p]
                         /\ vecs' = Put(vecs, v, [saved[p][path] EXCEPT !.f = f])
                         /\ UNCHANGED <<files, sess, hs, saved>>

(* The section of a vector of a closed file is damaged (by anyone else): its id,
   or the type of its first packet                                             *)
Damage(p, path, what) == /\ p \in DOMAIN saved /\ path \in DOMAIN saved[p]
                         /\ saved[p][path].sect
                         /\ what \in {"id", "packet"}
                         /\ saved' = [saved EXCEPT ![p][path].bad = what]
                         /\ UNCHANGED <<files, vecs, sess, hs>>

(* The record count is defined when no writer of the vector is active *)
ChildCount(v, c) == /\ IsOpen(vecs[v].f)
                    /\ ~vecs[v].lost
                    /\ \A s \in Active(vecs[v].f, "w") : sess[s].v # v
                    /\ c = vecs[v].recs
                    /\ UNCHANGED svars

Counts(f, w, r) == /\ w = Count(f, "w")
                   /\ r = Count(f, "r")
                   /\ UNCHANGED svars

-----------------------------------------------------------------------------
(* Buffers *)

Leaf(v, b) == IF b.p \in DOMAIN vecs[v].leaves THEN vecs[v].leaves[b.p] ELSE "-"

BufErrors(v, bufs, all) ==
    LET L == DOMAIN bufs IN
    When(\E i \in L : bufs[i].cap # bufs[1].cap, "ErrorBufferSizeMismatch")
    \cup When(\E i, j \in L : i < j /\ Leaf(v, bufs[i]) = Leaf(v, bufs[j]), "ErrorBufferDuplicatePathName")
    \cup When(\E i \in L : Leaf(v, bufs[i]) = "-", "ErrorPathUndefined")
    \* a path that leads to an inner structure or vector of the prototype
    \cup (IF \E i \in L : Leaf(v, bufs[i]) = "inner" THEN {"ErrorPathUndefined", "ErrorInternal", "ErrorBadPrototype", "ErrorBadAPIArgument"} ELSE {})
    \cup When(all /\ Range(vecs[v].leaves) \ ({"inner"} \cup {Leaf(v, bufs[i]) : i \in L}) # {}, "ErrorNoBufferForElement")

(* Strings cannot be transferred to or from buffers of numbers, nor numbers to or
   from buffers of strings; this shows when the first record is transferred.     *)
Unfit(v, bufs) == {IF vecs[v].kinds[Leaf(v, bufs[i])] = "str" THEN "ErrorExpectingUString" ELSE "ErrorExpectingNumeric" :
                     i \in {j \in DOMAIN bufs : /\ Leaf(v, bufs[j]) \in DOMAIN vecs[v].kinds
                                                /\ vecs[v].kinds[Leaf(v, bufs[j])] # bufs[j].rep}}

Compatible(old, new) == /\ Len(old) = Len(new)
                        /\ \A i \in DOMAIN old : old[i].p = new[i].p /\ old[i].sig = new[i].sig

-----------------------------------------------------------------------------
(* Sessions *)

NewErrors(kind, v, bufs) ==
    LET f == vecs[v].f IN
    When(~IsOpen(f), "ErrorImageFileNotOpen")
    \cup When(Count(f, "w") > 0, "ErrorTooManyWriters")
    \cup When(Count(f, "r") > 0, "ErrorTooManyReaders")
    \cup When(Len(bufs) = 0, "ErrorBadAPIArgument")
    \cup When(~vecs[v].att, "ErrorNodeUnattached")
    \cup (IF kind = "w" THEN When(files[f].mode = "r", "ErrorFileReadOnly")
                             \cup When(vecs[v].recs > 0, "ErrorSetTwice")
                        ELSE When(vecs[v].recs = 0 /\ ~vecs[v].sect, "ErrorData3DReadInvalidZeroRecords")
                             \cup When(vecs[v].bad = "id", "ErrorBadCVHeader")
                             \cup (IF vecs[v].bad = "packet" THEN {"ErrorBadCVPacket", "ErrorInternal"} ELSE {}))
    \cup (IF Len(bufs) > 0 THEN BufErrors(v, bufs, kind = "w") ELSE {})

New(kind, h, s, v, bufs, r) ==
    /\ ~vecs[v].lost
    /\ Outcome(NewErrors(kind, v, bufs), r)
    /\ IF r = "ok"
       THEN /\ sess' = Put(sess, s, [kind |-> kind, v |-> v, open |-> TRUE, bufs |-> bufs, n |-> 0, broken |-> FALSE])
            /\ hs' = Put(hs, h, s)
       ELSE UNCHANGED <<sess, hs>>
    /\ UNCHANGED <<files, vecs, saved>>

CopyHandle(h, g) == /\ h \in DOMAIN hs
                    /\ hs' = Put(hs, g, hs[h])
                    /\ UNCHANGED <<files, vecs, sess, saved>>

UseErrors(s) ==
    When(~IsOpen(vecs[sess[s].v].f), "ErrorImageFileNotOpen")
    \cup When(~sess[s].open, IF sess[s].kind = "w" THEN "ErrorWriterNotOpen" ELSE "ErrorReaderNotOpen")

SwapErrors(s, bufs) == When(~Compatible(sess[s].bufs, bufs), "ErrorBuffersNotCompatible")
                       \cup (IF Len(bufs) > 0 THEN BufErrors(sess[s].v, bufs, sess[s].kind = "w") ELSE {"ErrorBadAPIArgument"})

(* write(n) with the current buffers *)
Write(h, n, r) ==
    LET s == hs[h]
        errs == UseErrors(s) \cup When(n > sess[s].bufs[1].cap, "ErrorBadAPIArgument")
        fails == errs = {} /\ n > 0 /\ Unfit(sess[s].v, sess[s].bufs) # {}
    IN
    /\ ~sess[s].broken
    /\ Outcome(IF fails THEN Unfit(sess[s].v, sess[s].bufs) ELSE errs, r)
    /\ sess' = IF r = "ok" THEN [sess EXCEPT ![s].n = @ + n] ELSE [sess EXCEPT ![s].broken = fails]
    /\ UNCHANGED <<files, vecs, hs, saved>>

(* write(bufs, n): proper buffers stay in use even if n is then refused *)
WriteWith(h, bufs, n, r) ==
    LET s == hs[h]
        sw == SwapErrors(s, bufs)
        use == UseErrors(s)
        errs == sw \cup use \cup When(Len(bufs) > 0 /\ n > bufs[1].cap, "ErrorBadAPIArgument")
        fails == errs = {} /\ n > 0 /\ Unfit(sess[s].v, bufs) # {}
    IN
    /\ ~sess[s].broken
    /\ Outcome(IF fails THEN Unfit(sess[s].v, bufs) ELSE errs, r)
    /\ sess' = IF r = "ok" THEN [sess EXCEPT ![s].n = @ + n, ![s].bufs = bufs]
               ELSE IF sw = {} /\ use = {} THEN [sess EXCEPT ![s].bufs = bufs, ![s].broken = fails]
               ELSE sess
    /\ UNCHANGED <<files, vecs, hs, saved>>

Min2(a, b) == IF a < b THEN a ELSE b

(* One read: the next records, the same in every buffer *)
Deliver(s, cap, k, n, runs, clean) ==
    /\ n = Min2(cap, vecs[sess[s].v].recs - sess[s].n)
    /\ runs = [i \in 1..k |-> IF n = 0 THEN << >> ELSE << <<sess[s].n, n>> >>]
    /\ clean

(* The transfer of the next records fails, if there are any *)
ReadFails(s, bufs) == sess[s].n < vecs[sess[s].v].recs /\ bufs[1].cap > 0 /\ Unfit(sess[s].v, bufs) # {}

Read(h, r, n, runs, clean) ==
    LET s == hs[h]
        errs == UseErrors(s)
        fails == errs = {} /\ ReadFails(s, sess[s].bufs)
    IN
    /\ ~sess[s].broken
    /\ Outcome(IF fails THEN Unfit(sess[s].v, sess[s].bufs) ELSE errs, r)
    /\ IF r = "ok" THEN /\ Deliver(s, sess[s].bufs[1].cap, Len(sess[s].bufs), n, runs, clean)
                        /\ sess' = [sess EXCEPT ![s].n = @ + n]
                   ELSE clean /\ sess' = [sess EXCEPT ![s].broken = fails]
    /\ UNCHANGED <<files, vecs, hs, saved>>

ReadWith(h, bufs, r, n, runs, clean) ==
    LET s == hs[h]
        errs == UseErrors(s) \cup SwapErrors(s, bufs)
        fails == errs = {} /\ ReadFails(s, bufs)
    IN
    /\ ~sess[s].broken
    /\ Outcome(IF fails THEN Unfit(sess[s].v, bufs) ELSE errs, r)
    /\ IF r = "ok" THEN /\ Deliver(s, bufs[1].cap, Len(bufs), n, runs, clean)
                        /\ sess' = [sess EXCEPT ![s].n = @ + n, ![s].bufs = bufs]
                   ELSE clean /\ sess' = [sess EXCEPT ![s].broken = fails]
    /\ UNCHANGED <<files, vecs, hs, saved>>

Seek(h, r) == /\ r \in UseErrors(hs[h]) \cup {"ErrorNotImplemented"}
              /\ UNCHANGED svars

SessOpen(h, v) == v = sess[hs[h]].open /\ UNCHANGED svars

(* What a closing writer leaves behind, provided its file is still open *)
Stored(s) == IF sess[s].open /\ sess[s].kind = "w" /\ IsOpen(vecs[sess[s].v].f)
             THEN [vecs EXCEPT ![sess[s].v].recs = sess[s].n, ![sess[s].v].sect = TRUE, ![sess[s].v].lost = sess[s].broken]
             ELSE vecs

Close(h, r) ==
    LET s == hs[h] IN
    /\ Outcome(When(sess[s].open /\ ~IsOpen(vecs[sess[s].v].f), "ErrorImageFileNotOpen"), r)
    /\ vecs' = Stored(s)
    /\ sess' = [sess EXCEPT ![s].open = FALSE]
    /\ UNCHANGED <<files, hs, saved>>

Drop(h) ==
    LET s == hs[h]
        last == \A g \in DOMAIN hs : hs[g] = s => g = h
    IN
    /\ hs' = Del(hs, h)
    /\ vecs' = IF last THEN Stored(s) ELSE vecs
    /\ sess' = IF last THEN Del(sess, s) ELSE sess
    /\ UNCHANGED <<files, saved>>

-----------------------------------------------------------------------------
(* Consequences *)

Exclusive == \A f \in DOMAIN files : /\ Count(f, "w") <= 1
                                     /\ Count(f, "w") = 1 => Count(f, "r") = 0

ReadersWithin == \A s \in DOMAIN sess : sess[s].kind = "r" => sess[s].n <= vecs[sess[s].v].recs

StoredHasSection == \A v \in DOMAIN vecs : vecs[v].recs > 0 => vecs[v].sect

HandlesExact == Range(hs) = DOMAIN sess
=============================================================================

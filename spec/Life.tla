-------------------------------- MODULE Life --------------------------------
(* Life of ImageFiles and of the files on disk (property P12).

   An image is what several handles share.  Its file on disk is partial from
   the moment it is opened for writing until close completes it; cancel, or
   dropping the last handle, removes it instead.  Nothing else ever changes a
   file on disk.                                                            *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES imgs,     \* imgs[i] = [open, mode, path, tag, buf]
          handles,  \* handles[h] = i
          disk      \* disk[p] = [st, tag, hash]; st: "absent", "partial", "complete"

lvars == <<imgs, handles, disk>>

EmptyFun == [x \in {} |-> x]
LInit == imgs = EmptyFun /\ handles = EmptyFun /\ disk = EmptyFun

With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Absent == [st |-> "absent", tag |-> -1, hash |-> ""]
OnDisk(p) == IF p \in DOMAIN disk THEN disk[p] ELSE Absent

ImageOf(h) == imgs[handles[h]]
Handles(i) == {h \in DOMAIN handles : handles[h] = i}
IsOpen(h) == ImageOf(h).open

(* nobody else has the file open *)
Busy(p) == \E i \in DOMAIN imgs : imgs[i].open /\ imgs[i].path = p /\ ~imgs[i].buf

-----------------------------------------------------------------------------
OpenWrite(h, i, p) ==
  /\ h \notin DOMAIN handles /\ i \notin DOMAIN imgs /\ ~Busy(p)
  /\ imgs' = With(imgs, i, [open |-> TRUE, mode |-> "w", path |-> p, tag |-> -1, buf |-> FALSE])
  /\ handles' = With(handles, h, i)
  /\ disk' = With(disk, p, [st |-> "partial", tag |-> -1, hash |-> ""])

(* Opening what is not complete is refused; r is the observed result *)
OpenRead(h, i, p, buf, r) ==
  /\ h \notin DOMAIN handles /\ i \notin DOMAIN imgs
  /\ IF OnDisk(p).st = "complete"
     THEN /\ r = "ok"
          /\ imgs' = With(imgs, i, [open |-> TRUE, mode |-> "r", path |-> p, tag |-> OnDisk(p).tag, buf |-> buf])
          /\ handles' = With(handles, h, i)
     ELSE /\ r # "ok"
          /\ (OnDisk(p).st = "absent" /\ ~buf) => r = "ErrorOpenFailed"
          /\ UNCHANGED <<imgs, handles>>
  /\ UNCHANGED disk

OpenBadMode(p, r) == r = "ErrorBadAPIArgument" /\ UNCHANGED lvars
OpenBadPlace(r) == r = "ErrorOpenFailed" /\ UNCHANGED lvars

Copy(h, g) == /\ g \notin DOMAIN handles
              /\ handles' = With(handles, g, handles[h])
              /\ UNCHANGED <<imgs, disk>>

Fill(h, tag) == /\ IsOpen(h) /\ ImageOf(h).mode = "w" /\ ImageOf(h).tag = -1
                /\ imgs' = [imgs EXCEPT ![handles[h]].tag = tag]
                /\ UNCHANGED <<handles, disk>>

Finish(h) == imgs' = [imgs EXCEPT ![handles[h]].open = FALSE]

Close(h) ==
  /\ Finish(h)
  /\ disk' = IF IsOpen(h) /\ ImageOf(h).mode = "w"
             THEN With(disk, ImageOf(h).path, [st |-> "complete", tag |-> ImageOf(h).tag, hash |-> ""])
             ELSE disk
  /\ UNCHANGED handles

Removed(h) == IF IsOpen(h) /\ ImageOf(h).mode = "w" THEN With(disk, ImageOf(h).path, Absent) ELSE disk

Cancel(h) == /\ Finish(h)
             /\ disk' = Removed(h)
             /\ UNCHANGED handles

Drop(h) == /\ IF Handles(handles[h]) = {h}
              THEN disk' = Removed(h) /\ imgs' = Without(imgs, handles[h])
              ELSE UNCHANGED <<imgs, disk>>
           /\ handles' = Without(handles, h)

-----------------------------------------------------------------------------
(* Observations *)
Stat(p, exists, hash) ==
  /\ CASE OnDisk(p).st = "absent" -> ~exists /\ UNCHANGED disk
       [] OnDisk(p).st = "partial" -> UNCHANGED disk
       [] OTHER -> /\ exists
                   /\ OnDisk(p).hash \in {"", hash}
                   /\ disk' = [disk EXCEPT ![p].hash = hash]
  /\ UNCHANGED <<imgs, handles>>

Content(h, r, v) ==
  /\ IF IsOpen(h) THEN r = "ok" /\ v = ImageOf(h).tag ELSE r = "ErrorImageFileNotOpen"
  /\ UNCHANGED lvars

All(l, r) == \A k \in DOMAIN l : l[k][2] = r

(* q: queries, m: modifications, u: what never needs the file *)
Probe(h, x) ==
  LET y == ImageOf(h) IN
  /\ All(x.q, IF y.open THEN "ok" ELSE "ErrorImageFileNotOpen")
  /\ All(x.m, IF ~y.open THEN "ErrorImageFileNotOpen" ELSE IF y.mode = "r" THEN "ErrorFileReadOnly" ELSE "ok")
  /\ All(x.u, "ok")
  /\ x.open = y.open
  /\ x.wr = (y.mode = "w")
  /\ ~y.buf => x.name = y.path
  /\ x.wc = 0 /\ x.rc = 0
  /\ x.same
  /\ UNCHANGED lvars

Same(h, g, v) == v = (handles[h] = handles[g]) /\ UNCHANGED lvars

-----------------------------------------------------------------------------
(* A file is partial only while somebody writes it, and somebody who writes a file has it partial *)
PartialIsOwned ==
  \A p \in DOMAIN disk :
    disk[p].st = "partial" <=> \E i \in DOMAIN imgs : imgs[i].open /\ imgs[i].mode = "w" /\ imgs[i].path = p
HandlesValid == \A h \in DOMAIN handles : handles[h] \in DOMAIN imgs
NoOrphans == \A i \in DOMAIN imgs : Handles(i) # {}
(* closed is for ever, and what is complete changes only by opening it for writing *)
Final == [][ /\ \A i \in DOMAIN imgs \cap DOMAIN imgs' : imgs'[i].open => imgs[i].open
             /\ \A p \in DOMAIN disk : disk[p].st = "complete" => disk'[p].st # "absent" /\ (disk'[p].st = "complete" => disk'[p].tag = disk[p].tag)
           ]_lvars
=============================================================================

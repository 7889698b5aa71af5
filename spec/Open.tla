-------------------------------- MODULE Open --------------------------------
(* When may a file be opened and read (P06)?

   A file is described by what an instrument finds in its bytes. This module collects the rules the
   bytes break and the error documented for each. A file that breaks no rule is accepted; one that
   does is refused with the error of a rule it breaks.

   Header: [size, sig, major, minor, length, psize, xml]
      length, psize are decimal texts (64 bit); xml says where the XML section lies:
      "in" the file, "out" of it, or "crc" when its offset points into a checksum
   XML: [wf, loose, els]. Elements in document order, up to the point where the XML stops being well
      formed (loose: more than a missing end is wrong there, so another reading of it is possible):
      [par, name, type, tx, closed, ns, off, len, cnt, het, prec, rng, val, sig]
      par     index of the parent (0: none)
      type    value of the attribute "type", "" if there is none
      tx      text found directly in it: "none" "space" "text"
      closed  its end was reached            ns  a default namespace is declared in it
      off, len, cnt  the attributes fileOffset, length, recordCount: "none" "neg" "ok"
      het     allowHeterogeneousChildren: "none" "0" "1" "bad"
      prec    "none" "single" "double" "bad"
      rng     "ok" if minimum <= maximum     val  "none" "in" "out" of these bounds
      sig     the attributes that are part of the type of the element, in canonical form          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

BadXml == "ErrorBadXMLFormat"
If(c, e) == IF c THEN {e} ELSE {}

(* ---- file header ---- *)
Truncated == {"ErrorInternal", "ErrorReadFailed", "ErrorSeekFailed", "ErrorBadFileSignature", "ErrorBadFileLength", "ErrorBadInputDataSize"}
NotReadable == {"ErrorInternal", "ErrorReadFailed", "ErrorSeekFailed", "ErrorXMLParser"}
HeaderErrs(h) ==
   IF h.size % 1024 # 0 THEN {"ErrorBadInputDataSize"}
   ELSE IF h.size = 0 THEN Truncated
   ELSE If(h.sig # "ASTM-E57", "ErrorBadFileSignature")
        \cup If(h.major > 1 \/ (h.major = 1 /\ h.minor > 0), "ErrorUnknownFileVersion")
        \cup If(h.length # ToString(h.size), "ErrorBadFileLength")
        \cup If(h.major > 0 /\ h.psize # "1024", "ErrorBadFileLength")
\* files of the prototype versions 0.x: nothing is promised
Undecided(h) == h.major = 0 \/ h.xml = "crc"

(* ---- elements ---- *)
Types == {"Structure", "Vector", "CompressedVector", "Integer", "ScaledInteger", "Float", "String", "Blob"}
Containers == {"Structure", "Vector", "CompressedVector"}
Numbers == {"Integer", "ScaledInteger", "Float"}

Kids(els, i) == {j \in 1..Len(els) : els[j].par = i}
Closed(els, i) == {j \in Kids(els, i) : els[j].closed}
\* children in document order
RECURSIVE InOrder(_)
InOrder(S) == IF S = {} THEN <<>>
              ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o InOrder(S \ {m})

\* two elements of the same type, as the children of a homogeneous Vector have to be
RECURSIVE Same(_, _, _)
Same(els, a, b) ==
   /\ els[a].type = els[b].type
   /\ els[a].sig = els[b].sig
   /\ LET ka == InOrder(Kids(els, a))
          kb == InOrder(Kids(els, b))
      IN CASE els[a].type = "Vector" ->
                 /\ els[a].het = "1" <=> els[b].het = "1"
                 /\ Len(ka) = Len(kb)
                 /\ \A k \in 1..Len(ka) : Same(els, ka[k], kb[k])
           [] els[a].type = "Structure" ->
                 /\ Len(ka) = Len(kb)
                 /\ \A i \in Kids(els, a) : \E j \in Kids(els, b) : els[i].name = els[j].name /\ Same(els, i, j)
           [] els[a].type = "CompressedVector" ->
                 \A i \in Kids(els, a) : \A j \in Kids(els, b) : els[i].name = els[j].name => Same(els, i, j)
           [] OTHER -> TRUE

\* rules of the start of an element
StartErrs(els, i) ==
   LET e == els[i] IN
   If(e.type \notin Types, BadXml)
   \cup If(e.type \in {"Blob", "CompressedVector"} /\ e.off # "ok", BadXml)
   \cup If(e.type = "Blob" /\ e.len # "ok", BadXml)
   \cup If(e.type = "CompressedVector" /\ e.cnt # "ok", BadXml)
   \cup If(e.type = "Float" /\ e.prec = "bad", BadXml)
   \cup If(e.type = "Vector" /\ e.het = "bad", BadXml)
   \cup If(e.par = 0 /\ (e.type # "Structure" \/ e.name # "e57Root" \/ ~e.ns), BadXml)
   \* namespaces are declared in the root
   \cup If(e.par = 0 /\ e.type # "Structure", "ErrorPathNameExtensionNotRegistered")

\* rules of its text
TextErrs(els, i) == If(els[i].tx = "text" /\ els[i].type \in Containers \cup {"Blob"}, BadXml)

\* rules that apply at its end
EndErrs(els, i) ==
   LET e == els[i]
       cl == Closed(els, i)
   IN If(e.type \in Numbers /\ e.rng = "bad", BadXml)
      \cup If(e.type \in Numbers /\ e.val = "out", "ErrorValueOutOfBounds")
      \cup If(e.type = "CompressedVector" /\ ~\E k \in cl : els[k].name = "prototype", BadXml)
\* rules of adding it to its parent
AddErrs(els, i) ==
   LET e == els[i]
       p == e.par
       before == {j \in Closed(els, p) : j < i}
   IN IF p = 0 THEN {}
      ELSE CASE els[p].type = "Structure" -> If(\E j \in before : els[j].name = e.name, "ErrorSetTwice")
             [] els[p].type = "Vector" ->
                   If(els[p].het # "1" /\ before # {} /\ ~Same(els, InOrder(before)[1], i), "ErrorHomogeneousViolation")
             [] els[p].type = "CompressedVector" ->
                   If(e.name \notin {"prototype", "codecs"}, BadXml)
                   \cup If(e.name = "codecs" /\ (e.type # "Vector" \/ e.het # "1"), BadXml)
                   \cup If(\E j \in before : els[j].name = e.name, "ErrorSetTwice")
             [] OTHER -> {BadXml}

XmlErrs(x) == (IF x.wf THEN {} ELSE {"ErrorXMLParser"} \cup If(x.loose, BadXml))
              \cup UNION {StartErrs(x.els, i) \cup TextErrs(x.els, i) : i \in 1..Len(x.els)}
              \cup UNION {EndErrs(x.els, i) \cup AddErrs(x.els, i) : i \in {j \in 1..Len(x.els) : x.els[j].closed}}

OpenErrs(f) == IF HeaderErrs(f.hdr) # {} THEN HeaderErrs(f.hdr)
               ELSE IF f.hdr.xml = "out" THEN NotReadable \cup XmlErrs(f.xml)
               ELSE XmlErrs(f.xml)
OpenOk(f, r) == \/ Undecided(f.hdr)
                \/ OpenErrs(f) = {} /\ r = "ok"
                \/ r \in OpenErrs(f)

(* ---- compressed vectors ----
   s = [at, n, size, lsize, id, res, len, mod4, doff, ioff, where, leaves, need, pkts]
     at     "in" the file, "out", "crc", or "zero"     n  recordCount (clamped)
     len, doff, ioff  clamped; size, lsize  physical and logical size of the file
     mod4   len modulo 4                     where  where doff points: "in" the section, "off", "crc"
     leaves number of leaves, need  bytes needed per leaf to hold n records
     pkts   the packets met from doff to the end of the section, until one is broken:
            [t, len, cnt, lens, sum, pad, entries, level, res, fits, clean]
            sum: total of lens; pad: some padding byte is not zero; fits: it lies within the file;
            clean: the bytestreams up to and with this packet are still what was stored            *)
PktBad == "ErrorBadCVPacket"
DataErrs(p, leaves) ==
   LET need == 6 + 2 * p.cnt + p.sum IN
   If(p.len < 6 \/ p.len % 4 # 0 \/ 6 + 2 * p.cnt > p.len \/ need > p.len \/ need + 3 < p.len \/ p.pad, PktBad)
   \cup (IF p.cnt < leaves THEN {PktBad, "ErrorInternal"} ELSE {})
IndexErrs(p) == If(p.len < 16 \/ p.len % 4 # 0 \/ p.entries = 0 \/ p.entries > 2048 \/ p.level > 5
                   \/ (p.level > 0 /\ p.entries < 2) \/ p.res \/ p.len < 16 + 16 * p.entries \/ p.pad, PktBad)
EmptyErrs(p) == If(p.len < 4 \/ p.len % 4 # 0, PktBad)
PacketErrs(p, leaves, k) ==
   IF ~p.fits THEN {PktBad, "ErrorInternal", "ErrorReadFailed", "ErrorSeekFailed"}
   ELSE CASE p.t = 1 -> DataErrs(p, leaves)
          [] p.t = 0 -> IndexErrs(p) \cup If(k = 1, PktBad)
          [] p.t = 2 -> EmptyErrs(p) \cup If(k = 1, PktBad)
          [] OTHER -> {PktBad, "ErrorInternal"}

HeadErrs(s) ==
   IF s.at = "zero" THEN (IF s.n = 0 THEN {"ErrorData3DReadInvalidZeroRecords"} ELSE {"ErrorInternal"})
   ELSE IF s.at = "out" THEN {"ErrorInternal", "ErrorReadFailed", "ErrorSeekFailed"}
   ELSE If(s.id # 1 \/ s.res \/ s.mod4 # 0 \/ s.len >= s.size \/ s.doff >= s.size \/ s.ioff >= s.size, "ErrorBadCVHeader")

RECURSIVE Supply(_, _, _)
Supply(pk, leaf, k) == IF k = 0 THEN 0
                       ELSE (IF pk[k].t = 1 /\ leaf <= Len(pk[k].lens) THEN pk[k].lens[leaf] ELSE 0) + Supply(pk, leaf, k - 1)
Satisfied(s, k) == \A leaf \in 1..s.leaves : Supply(s.pkts, leaf, k) >= s.need[leaf]
Broken(s) == {k \in 1..Len(s.pkts) : PacketErrs(s.pkts[k], s.leaves, k) # {}}
FirstBroken(s) == IF Broken(s) = {} THEN Len(s.pkts) + 1 ELSE CHOOSE k \in Broken(s) : \A j \in Broken(s) : k <= j

\* outcomes of reading all records; "ok" means all of them were delivered
ReadOutcomes(s) ==
   IF HeadErrs(s) # {} THEN HeadErrs(s)
   ELSE LET b == FirstBroken(s)
            errs == IF b <= Len(s.pkts) THEN PacketErrs(s.pkts[b], s.leaves, b) ELSE {}
        IN IF b = 1 /\ errs # {}                                \* the first packet is always looked at
           THEN errs \cup (IF s.n = 0 /\ PacketErrs(s.pkts[1], 0, 1) = {} THEN {"ok"} ELSE {})  \* no records, no bytestreams
           ELSE IF s.n > 0 /\ ~Satisfied(s, b - 1)
           THEN IF errs # {} THEN errs ELSE {PktBad, "ErrorInternal"}  \* the packets end before the records
           ELSE {"ok"} \cup errs
Unsettled(s) == \/ s.at = "crc"
                \/ HeadErrs(s) = {} /\ (s.where # "in" \/ \E k \in 1..(FirstBroken(s) - 1) : ~s.pkts[k].clean)
\* good: the values delivered are the stored ones
VectorOk(s, r, n, good) == \/ Unsettled(s)
                           \/ /\ r \in ReadOutcomes(s)
                              /\ r = "ok" => n = s.n
                              /\ good
=============================================================================

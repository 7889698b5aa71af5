------------------------------- MODULE Layout -------------------------------
(* The E57 file on disk: pages, header, XML section, binary sections, packets and bytestreams.

   A file is described by what an instrument measures in its bytes; this module says when the bytes
   conform and which values they stand for. The same definitions judge files written by the library
   (P03) and files the library has to read (P04, P06).

   A file is [size, bad, hdr, wf, secs]:
     size  physical size in bytes            bad   pages whose checksum is wrong
     hdr   [sig, major, minor, length, xoff, xlen, psize]
     wf    the XML section is well formed
     secs  the binary sections the XML refers to (below)
   A section is [k, off, id, res, len, n, doff, ioff, leaves, pkts, vals]:
     k     "blob" or "cv"                    off   physical offset given in the XML
     id, res, len, doff, ioff   the section header; res is the sum of its reserved bytes
     n     blob length / record count given in the XML
     leaves  terminal elements of the prototype: [kind, lo, hi]
     pkts  packets found from the section header to the end of the section
     vals  per leaf, the values of records 1..n                                                  *)
EXTENDS Big, FiniteSets, TLC

PageSize == 1024
Payload == 1020

\* physical offset to logical offset; a physical offset never points into a checksum
Logical(p) == (p \div PageSize) * Payload + (p % PageSize)
Addressable(p) == p % PageSize < Payload

HeaderOk(f) == /\ f.size % PageSize = 0
               /\ f.hdr.sig = "ASTM-E57"
               /\ f.hdr.major = 1 /\ f.hdr.minor = 0
               /\ f.hdr.length = f.size
               /\ f.hdr.psize = PageSize

LogicalSize(f) == (f.size \div PageSize) * Payload

XmlOk(f) == /\ Addressable(f.hdr.xoff)
            /\ f.hdr.xlen > 0
            /\ Logical(f.hdr.xoff) + f.hdr.xlen <= LogicalSize(f)
            /\ f.wf

(* ---- sections ---- *)
SecStart(s) == Logical(s.off)
SecEnd(s) == SecStart(s) + s.len

SecOk(f, s) ==
   /\ Addressable(s.off)
   /\ SecStart(s) % 4 = 0
   /\ SecEnd(s) <= LogicalSize(f)
   /\ s.len % 4 = 0
   /\ s.res = 0
   /\ s.k = "blob" => s.id = 0 /\ s.len >= 16 + s.n /\ s.n >= 0
   /\ s.k = "cv" => s.id = 1 /\ s.len >= 32 /\ s.n >= 0

\* the extents of header, XML and sections
Extents(f) == <<[a |-> 0, b |-> 48], [a |-> Logical(f.hdr.xoff), b |-> Logical(f.hdr.xoff) + f.hdr.xlen]>>
              \o [i \in 1..Len(f.secs) |-> [a |-> SecStart(f.secs[i]), b |-> SecEnd(f.secs[i])]]
Disjoint(f) == LET x == Extents(f)
               IN \A i, j \in 1..Len(x) : i < j => x[i].b <= x[j].a \/ x[j].b <= x[i].a

(* ---- packets ---- *)
RECURSIVE SumFrom(_, _)
SumFrom(q, i) == IF i > Len(q) THEN 0 ELSE q[i] + SumFrom(q, i + 1)
Sum(q) == SumFrom(q, 1)

\* type 1: data
DataOk(p, nleaves) ==
   LET need == 6 + 2 * Len(p.lens) + Sum(p.lens)
   IN /\ Len(p.lens) = nleaves
      /\ p.len % 4 = 0
      /\ need <= p.len /\ p.len < need + 4
      /\ \A i \in 1..Len(p.pad) : p.pad[i] = 0
\* type 0: index; entries name records and the data packets in which their chunks begin
IndexOk(p, s) ==
   /\ p.fl = 0
   /\ p.entries >= 0 /\ p.len = 16 + 16 * p.entries
   /\ p.level <= 5
   /\ \A i \in 1..Len(p.recs) :
         /\ p.recs[i][1] <= s.n
         /\ Addressable(p.recs[i][2])
         /\ i > 1 => p.recs[i - 1][1] < p.recs[i][1]
         /\ \E q \in 1..Len(s.pkts) : /\ s.pkts[q].at = Logical(p.recs[i][2])
                                     /\ IF p.level = 0 THEN s.pkts[q].t = 1 ELSE s.pkts[q].t = 0 /\ s.pkts[q].level = p.level - 1
\* type 2: empty
EmptyOk(p) == p.len % 4 = 0

PacketOk(p, s) == CASE p.t = 1 -> DataOk(p, Len(s.leaves))
                    [] p.t = 0 -> IndexOk(p, s)
                    [] p.t = 2 -> EmptyOk(p)
                    [] OTHER -> FALSE

PacketsOk(s) ==
   /\ Addressable(s.doff)
   /\ Len(s.pkts) >= 1
   /\ s.pkts[1].at = SecStart(s) + 32
   /\ \E i \in 1..Len(s.pkts) : /\ s.pkts[i].at = Logical(s.doff)
                               /\ s.pkts[i].t = 1
                               /\ \A j \in 1..(i - 1) : s.pkts[j].t # 1
   /\ \A i \in 1..Len(s.pkts) :
         /\ PacketOk(s.pkts[i], s)
         /\ s.pkts[i].at % 4 = 0
         /\ s.pkts[i].at + s.pkts[i].len = (IF i < Len(s.pkts) THEN s.pkts[i + 1].at ELSE SecEnd(s))
   /\ s.ioff # 0 => /\ Addressable(s.ioff)
                    /\ \E i \in 1..Len(s.pkts) : s.pkts[i].t = 0 /\ s.pkts[i].at = Logical(s.ioff)

(* ---- bytestreams ---- *)
RECURSIVE StreamFrom(_, _, _)
StreamFrom(s, k, i) == IF i > Len(s.pkts) THEN <<>>
                       ELSE IF s.pkts[i].t = 1 THEN s.pkts[i].bytes[k] \o StreamFrom(s, k, i + 1)
                       ELSE StreamFrom(s, k, i + 1)
Stream(s, k) == StreamFrom(s, k, 1)

\* number of bits of a natural number
RECURSIVE BitsOfDigit(_)
BitsOfDigit(d) == IF d = 0 THEN 0 ELSE 1 + BitsOfDigit(d \div 2)
NBits(m) == IF m = <<>> THEN 0 ELSE BaseBits * (Len(m) - 1) + BitsOfDigit(m[Len(m)])
\* the minimum number of bits for lo..hi
Width(leaf) == NBits(Sub(leaf.hi, leaf.lo).m)

Min2(a, b) == IF a <= b THEN a ELSE b
ByteAt(b, i) == IF i <= Len(b) THEN b[i] ELSE 0
Pow(n) == IF n = 12 THEN 4096 ELSE P2[n + 1]

\* the natural number in bits at..at+w-1 of a stream, least significant first
Field(b, at, w) ==
   NTrim([j \in 1..((w + BaseBits - 1) \div BaseBits) |->
            LET p == at + BaseBits * (j - 1)
                n == Min2(BaseBits, w - BaseBits * (j - 1))
                i == p \div 8
            IN ((ByteAt(b, i + 1) + 256 * ByteAt(b, i + 2) + 65536 * ByteAt(b, i + 3)) \div P2[(p % 8) + 1]) % Pow(n)])

\* integers are given as <<sign, digit, digit, ...>>
AsNum(v) == [s |-> v[1], m |-> Tail(v), e |-> 0]

IntsOk(b, leaf, vs) ==
   LET w == Width(leaf)
       full == (Len(vs) * w + 7) \div 8
   IN /\ Len(b) >= full /\ Len(b) <= full + 7
      /\ \A i \in 1..Len(vs) : LET d == Sub(AsNum(vs[i]), leaf.lo)
                              IN d.s >= 0 /\ Field(b, (i - 1) * w, w) = d.m

FloatsOk(b, size, vs) ==
   /\ Len(b) = size * Len(vs)
   /\ \A i \in 1..Len(vs) : SubSeq(b, size * (i - 1) + 1, size * i) = vs[i]

\* strings carry their length: one byte (2 * length) up to 127, else eight bytes (2 * length + 1)
RECURSIVE StringsFrom(_, _, _, _)
StringsFrom(b, vs, i, at) ==
   IF i > Len(vs) THEN at = Len(b)
   ELSE LET n == Len(vs[i])
        IN IF n <= 127
           THEN /\ ByteAt(b, at + 1) = 2 * n
                /\ at + 1 + n <= Len(b)
                /\ SubSeq(b, at + 2, at + 1 + n) = vs[i]
                /\ StringsFrom(b, vs, i + 1, at + 1 + n)
           ELSE /\ at + 8 + n <= Len(b)
                /\ LET m == 2 * n + 1
                   IN SubSeq(b, at + 1, at + 8) = <<m % 256, (m \div 256) % 256, (m \div 65536) % 256, (m \div 16777216) % 256, 0, 0, 0, 0>>
                /\ SubSeq(b, at + 9, at + 8 + n) = vs[i]
                /\ StringsFrom(b, vs, i + 1, at + 8 + n)

LeafOk(s, k) == LET b == Stream(s, k)
                    leaf == s.leaves[k]
                    vs == s.vals[k]
                IN /\ Len(vs) = s.n
                   /\ CASE leaf.kind = "int" -> IntsOk(b, leaf, vs)
                        [] leaf.kind = "f32" -> FloatsOk(b, 4, vs)
                        [] leaf.kind = "f64" -> FloatsOk(b, 8, vs)
                        [] leaf.kind = "str" -> StringsFrom(b, vs, 1, 0)

SectionOk(f, s) == /\ SecOk(f, s)
                   /\ s.k = "cv" => /\ PacketsOk(s)
                                    /\ \A k \in 1..Len(s.leaves) : LeafOk(s, k)
                   /\ s.k = "blob" => s.content = s.vals

FileOk(f) == /\ HeaderOk(f)
             /\ f.bad = <<>>
             /\ XmlOk(f)
             /\ Disjoint(f)
             /\ \A i \in 1..Len(f.secs) : SectionOk(f, f.secs[i])

\* a writer also provides an index that leads to the first record, and leaves no vector without section
Indexed(s) == /\ s.ioff # 0
              /\ \E i \in 1..Len(s.pkts) : /\ s.pkts[i].t = 0
                                          /\ s.pkts[i].at = Logical(s.ioff)
                                          /\ Len(s.pkts[i].recs) >= 1
                                          /\ s.pkts[i].recs[1][1] = 0
                                          /\ s.pkts[i].recs[1][2] = s.doff
WrittenOk(f) == FileOk(f) /\ \A i \in 1..Len(f.secs) : f.secs[i].k = "cv" => Indexed(f.secs[i])

(* ---- reading (P04): the calls and values a reader must deliver from a conforming section ---- *)
RECURSIVE CallsOk(_, _, _)
CallsOk(calls, i, left) == IF i > Len(calls) THEN left = 0
                           ELSE LET c == calls[i]
                                    n == Min2(c[1], left)
                                IN /\ c[3] = "ok"
                                   /\ c[2] = n
                                   /\ CallsOk(calls, i + 1, left - n)
ReadOk(s, cols, calls, v) == /\ CallsOk(calls, 1, s.n)
                             /\ \A c \in 1..Len(cols) : v[c] = s.vals[cols[c]]
=============================================================================

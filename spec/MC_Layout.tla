----------------------------- MODULE MC_Layout -----------------------------
(* The decoder of Layout against an encoder written the other way round: bit by bit. For every width,
   every sequence of values and every division into packets, exactly the encoded values are accepted.
   Physical and logical offsets are checked against each other on the first pages.              *)
EXTENDS Layout

CONSTANTS Widths, Counts
ASSUME \A o \in 0..5000 : LET p == (o \div Payload) * PageSize + (o % Payload) IN Logical(p) = o /\ Addressable(p)

VARIABLES w, vs, cutAt, stage
vars == <<w, vs, cutAt, stage>>

\* bit i (from 0) of a value
Bit(v, i) == (v \div P2[i + 1]) % 2
BitAt(i) == IF i >= Len(vs) * w THEN 0 ELSE Bit(vs[(i \div w) + 1], i % w)
RECURSIVE ByteFrom(_, _)
ByteFrom(i, k) == IF k = 8 THEN 0 ELSE BitAt(8 * i + k) * P2[k + 1] + ByteFrom(i, k + 1)
Bytes == [i \in 1..((Len(vs) * w + 7) \div 8) |-> ByteFrom(i - 1, 0)]

IntVal(v) == LET n == Whole(v) IN <<n.s>> \o n.m
\* around the smallest 64 bit value as well as around zero
Lows == {Whole(0), Whole(-5), [s |-> -1, m |-> NShl(<<1>>, 63), e |-> 0]}
Leaf(lo) == [kind |-> "int", lo |-> lo, hi |-> Add(lo, Whole(P2[w + 1] - 1))]
Shifted(v, lo) == LET n == Add(Whole(v), lo) IN <<n.s>> \o n.m

Sec(leaf, xs) == [n |-> Len(xs), leaves |-> <<leaf>>, vals |-> <<xs>>,
                  pkts |-> <<[t |-> 1, bytes |-> <<SubSeq(Bytes, 1, cutAt)>>], [t |-> 2],
                             [t |-> 1, bytes |-> <<SubSeq(Bytes, cutAt + 1, Len(Bytes))>>]>>]

Init == w \in Widths /\ vs = <<>> /\ cutAt = 0 /\ stage = 0
Next == \/ stage = 0 /\ \E n \in Counts : vs' \in [1..n -> 0..(P2[w + 1] - 1)] /\ stage' = 1 /\ UNCHANGED <<w, cutAt>>
        \/ stage = 1 /\ cutAt' \in 0..Len(Bytes) /\ stage' = 2 /\ UNCHANGED <<w, vs>>
Spec == Init /\ [][Next]_vars

Decodes == stage = 2 =>
   \A lo \in Lows :
      LET good == [i \in 1..Len(vs) |-> Shifted(vs[i], lo)]
      IN /\ Width(Leaf(lo)) = w
         /\ LeafOk(Sec(Leaf(lo), good), 1)
         \* any other value is noticed
         /\ \A i \in 1..Len(vs) : \A x \in {vs[i] + 1, vs[i] - 1} :
               ~LeafOk(Sec(Leaf(lo), [good EXCEPT ![i] = Shifted(x, lo)]), 1)

=============================================================================

-------------------------------- MODULE Big --------------------------------
(* Exact arithmetic on binary fractions.

   TLC's integers have 32 bits; the values transferred by the library have up to 64 bits (integers)
   or any exponent (floating point). A natural number is a sequence of digits in base 4096, least
   significant first, without leading zeros; a number is a record [s, m, e] with the value
   s * m * 2^e. The arithmetic is checked against TLC's own on a range of numbers in MC_Convert. *)
EXTENDS Integers, Sequences

Base == 4096
BaseBits == 12
P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048>>

Digit(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
Max2(x, y) == IF x >= y THEN x ELSE y

RECURSIVE NTrim(_)
NTrim(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a ELSE NTrim(SubSeq(a, 1, Len(a) - 1))

RECURSIVE NAddFrom(_, _, _, _)
NAddFrom(a, b, i, c) ==
   IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
   ELSE LET t == Digit(a, i) + Digit(b, i) + c
        IN <<t % Base>> \o NAddFrom(a, b, i + 1, t \div Base)
NAdd(a, b) == NAddFrom(a, b, 1, 0)

RECURSIVE NCmpFrom(_, _, _)
NCmpFrom(a, b, i) == IF i = 0 THEN 0
                     ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1)
                     ELSE NCmpFrom(a, b, i - 1)
NCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE NCmpFrom(a, b, Len(a))

\* a - b for a >= b
RECURSIVE NSubFrom(_, _, _, _)
NSubFrom(a, b, i, c) ==
   IF i > Len(a) THEN <<>>
   ELSE LET t == a[i] - Digit(b, i) - c
        IN (IF t < 0 THEN <<t + Base>> ELSE <<t>>) \o NSubFrom(a, b, i + 1, IF t < 0 THEN 1 ELSE 0)
NSub(a, b) == NTrim(NSubFrom(a, b, 1, 0))

\* a * d for a digit d
RECURSIVE NScaleFrom(_, _, _, _)
NScaleFrom(a, d, i, c) ==
   IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
   ELSE LET t == a[i] * d + c
        IN <<t % Base>> \o NScaleFrom(a, d, i + 1, t \div Base)
NScale(a, d) == IF d = 0 THEN <<>> ELSE NScaleFrom(a, d, 1, 0)

RECURSIVE NMulFrom(_, _, _)
NMulFrom(a, b, i) == IF i > Len(b) THEN <<>>
                     ELSE LET rest == NMulFrom(a, b, i + 1)
                          IN NAdd(NScale(a, b[i]), IF rest = <<>> THEN <<>> ELSE <<0>> \o rest)
NMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE NMulFrom(a, b, 1)

NShl(a, k) == IF a = <<>> THEN <<>>
              ELSE [i \in 1..(k \div BaseBits) |-> 0] \o NScale(a, P2[(k % BaseBits) + 1])

RECURSIVE NOf(_)
NOf(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o NOf(n \div Base)

(* ---- numbers ---- *)
Zero == [s |-> 0, m |-> <<>>, e |-> 0]
Mk(s, m, e) == IF m = <<>> THEN Zero ELSE [s |-> s, m |-> m, e |-> e]
Whole(n) == IF n = 0 THEN Zero ELSE [s |-> IF n < 0 THEN -1 ELSE 1, m |-> NOf(IF n < 0 THEN -n ELSE n), e |-> 0]
Pow2(k) == [s |-> 1, m |-> <<1>>, e |-> k]

Neg(x) == [x EXCEPT !.s = -x.s]
Abs(x) == [x EXCEPT !.s = IF x.s < 0 THEN 1 ELSE x.s]
Twice(x) == IF x.s = 0 THEN x ELSE [x EXCEPT !.e = x.e + 1]
Shift(x, k) == IF x.s = 0 THEN x ELSE [x EXCEPT !.e = x.e + k]

Align(x, e) == IF x.e = e THEN x.m ELSE NShl(x.m, x.e - e)

Add(x, y) ==
   IF x.s = 0 THEN y ELSE IF y.s = 0 THEN x
   ELSE LET e == IF x.e <= y.e THEN x.e ELSE y.e
            a == Align(x, e)
            b == Align(y, e)
        IN IF x.s = y.s THEN Mk(x.s, NAdd(a, b), e)
           ELSE LET c == NCmp(a, b)
                IN IF c = 0 THEN Zero
                   ELSE IF c > 0 THEN Mk(x.s, NSub(a, b), e) ELSE Mk(y.s, NSub(b, a), e)
Sub(x, y) == Add(x, Neg(y))
Mul(x, y) == IF x.s = 0 \/ y.s = 0 THEN Zero ELSE Mk(x.s * y.s, NMul(x.m, y.m), x.e + y.e)

Cmp(x, y) ==
   IF x.s # y.s THEN (IF x.s < y.s THEN -1 ELSE 1)
   ELSE IF x.s = 0 THEN 0
   ELSE LET e == IF x.e <= y.e THEN x.e ELSE y.e
        IN x.s * NCmp(Align(x, e), Align(y, e))
Eq(x, y) == Cmp(x, y) = 0
Leq(x, y) == Cmp(x, y) <= 0
Lt(x, y) == Cmp(x, y) < 0
=============================================================================

------------------------------ MODULE Convert ------------------------------
(* What happens to one value on its way from a caller's buffer into a field of a compressed vector
   and back, and which values a scalar element or a field accepts.

   A field F is [ft, lo, hi, scale, off]: ft is "Integer", "ScaledInteger", "Float1" (single),
   "Float2" (double) or "String". A buffer is an element type R and two options, conv (the caller
   agreed to conversions) and scal (the caller wants values scaled). Values are numbers of module
   Big wrapped as [k |-> "num", ...], the specials [k |-> "nan" / "inf" / "ninf"], or strings
   [k |-> "str", v |-> ...].

   The library computes scaled values in double precision, so the exact result is required up to
   the rounding of at most four double operations (Tol); at a tie either neighbour is right. *)
EXTENDS Big, FiniteSets, TLC

IntReps == {"Int8", "UInt8", "Int16", "UInt16", "Int32", "UInt32", "Int64"}
RealReps == {"Real32", "Real64"}
Reps == IntReps \cup RealReps \cup {"Bool", "UString"}

When(c, e) == IF c THEN {e} ELSE {}

RLo(R) == CASE R = "Int8" -> Whole(-128) [] R = "Int16" -> Whole(-32768)
            [] R = "Int32" -> Neg(Pow2(31)) [] R = "Int64" -> Neg(Pow2(63))
            [] OTHER -> Zero
RHi(R) == CASE R = "Int8" -> Whole(127) [] R = "Int16" -> Whole(32767) [] R = "UInt8" -> Whole(255)
            [] R = "UInt16" -> Whole(65535) [] R = "Int32" -> Sub(Pow2(31), Whole(1))
            [] R = "UInt32" -> Sub(Pow2(32), Whole(1)) [] R = "Int64" -> Sub(Pow2(63), Whole(1))
I64Lo == RLo("Int64")
I64Hi == RHi("Int64")
FltMax == Sub(Pow2(128), Pow2(104))

IsNum(x) == x.k = "num"
Num(x) == [s |-> x.s, m |-> x.m, e |-> x.e]
\* the same value: equal numbers, or the same special
Same(x, y) == /\ x.k = y.k
              /\ (x.k = "num" => Eq(x, y))
              /\ (x.k = "str" => x.v = y.v)

Scaled(F, scal) == scal = 1 /\ F.ft = "ScaledInteger"

(* ------------------------------------------------------------------- writing *)

\* rounding allowance of (x - off) / scale + 1/2, in units of the value
WTol(F, x) == Shift(Add(Add(Abs(x), Abs(F.off)), Abs(F.scale)), -50)
\* the distance from the offset along the scale: the exact raw value is U / |scale|
U(F, x) == IF F.scale.s > 0 THEN Sub(x, F.off) ELSE Sub(F.off, x)

\* some raw value nearest to x lies below lo / above hi
NearBelow(F, x, lo) == Leq(Twice(U(F, x)), Add(Mul(Abs(F.scale), Sub(Twice(lo), Whole(1))), Twice(WTol(F, x))))
NearAbove(F, x, hi) == Leq(Add(Mul(Abs(F.scale), Add(Twice(hi), Whole(1))), Neg(Twice(WTol(F, x)))), Twice(U(F, x)))
Nearest(F, x, raw) == Leq(Abs(Sub(Twice(Mul(raw, Abs(F.scale))), Twice(U(F, x)))), Add(Abs(F.scale), Twice(WTol(F, x))))

\* truncation toward zero
TruncBelow(x, lo) == IF lo.s > 0 THEN Lt(x, lo) ELSE Leq(x, Sub(lo, Whole(1)))
TruncAbove(x, hi) == IF hi.s < 0 THEN Lt(hi, x) ELSE Leq(Add(hi, Whole(1)), x)
IsTrunc(x, n) == /\ n.s \in {0, x.s}
                 /\ Leq(Abs(n), Abs(x))
                 /\ Lt(Abs(x), Add(Abs(n), Whole(1)))

\* y, a floating point number whose last digit is worth 2^y.u, is x rounded
Rounded(x, y) == LET d == Twice(Abs(Sub(x, y)))
                 IN Leq(d, Add(Pow2(y.u), Pow2(y.u - 20)))

WriteErrs(F, R, conv, scal, x) ==
   IF F.ft = "String" THEN When(R # "UString", "ErrorExpectingUString")
   ELSE IF R = "UString" THEN {"ErrorExpectingNumeric"}
   ELSE IF F.ft \in {"Integer", "ScaledInteger"} THEN
      IF Scaled(F, scal) THEN
         When(R \in RealReps /\ conv = 0, "ErrorConversionRequired")
         \cup (IF ~IsNum(x) THEN {"ErrorScaledValueNotRepresentable"}
               ELSE When(NearBelow(F, x, I64Lo) \/ NearAbove(F, x, I64Hi), "ErrorScaledValueNotRepresentable")
                    \cup When(NearBelow(F, x, F.lo) \/ NearAbove(F, x, F.hi), "ErrorValueOutOfBounds"))
      ELSE
         When(R \in RealReps \cup {"Bool"} /\ conv = 0, "ErrorConversionRequired")
         \cup (IF ~IsNum(x) THEN {"ErrorValueNotRepresentable"}
               ELSE When(TruncBelow(x, I64Lo) \/ TruncAbove(x, I64Hi), "ErrorValueNotRepresentable")
                    \cup When(TruncBelow(x, F.lo) \/ TruncAbove(x, F.hi), "ErrorValueOutOfBounds"))
   ELSE When(R \in IntReps \cup {"Bool"} /\ conv = 0, "ErrorConversionRequired")
        \cup When(F.ft = "Float1" /\ R = "Real64" /\ (x.k \in {"inf", "ninf"} \/ (IsNum(x) /\ Lt(FltMax, Abs(x)))), "ErrorReal64TooLarge")

\* raw is what the field may hold after x was accepted
WriteOk(F, R, conv, scal, x, raw) ==
   IF F.ft = "String" THEN R = "UString" /\ Same(x, raw)
   ELSE IF F.ft \in {"Integer", "ScaledInteger"} THEN
      /\ R # "UString"
      /\ IsNum(raw) /\ IsNum(x)
      /\ Leq(F.lo, raw) /\ Leq(raw, F.hi)
      /\ IF Scaled(F, scal) THEN Nearest(F, x, Num(raw)) /\ (R \in RealReps => conv = 1)
         ELSE IF R \in RealReps THEN conv = 1 /\ IsTrunc(x, Num(raw))
         ELSE Eq(x, raw) /\ (R = "Bool" => conv = 1)
   ELSE
      /\ R # "UString"
      /\ R \in IntReps \cup {"Bool"} => conv = 1
      /\ IF ~IsNum(x) THEN Same(x, raw)
         ELSE IF R \in IntReps \/ (F.ft = "Float1" /\ R = "Real64") THEN IsNum(raw) /\ Rounded(x, raw)
         ELSE Same(x, raw)

(* The outcome r of a write, with the raw value then found in the field. Errors that only the rounding
   allowance permits do not forbid success. *)
WriteMust(F, R, conv, scal, x) ==
   LET e == WriteErrs(F, R, conv, scal, x)
   IN e \ {"ErrorValueOutOfBounds", "ErrorScaledValueNotRepresentable"}
WriteStep(F, R, conv, scal, x, r, raw) ==
   IF r = "ok" THEN WriteMust(F, R, conv, scal, x) = {} /\ WriteOk(F, R, conv, scal, x, raw)
   ELSE r \in WriteErrs(F, R, conv, scal, x)

(* ------------------------------------------------------------------- reading *)

Exact(F, raw) == Add(Mul(raw, F.scale), F.off)
RTol(F, raw) == Add(Shift(Add(Abs(Mul(raw, F.scale)), Abs(F.off)), -50), Pow2(-1074))

\* a real v with allowance t, rounded to an integer, may lie below lo / above hi / be n
ExBelow(v, t, lo) == Leq(Twice(v), Add(Sub(Twice(lo), Whole(1)), Twice(t)))
ExAbove(v, t, hi) == Leq(Sub(Add(Twice(hi), Whole(1)), Twice(t)), Twice(v))
ExIs(v, t, n) == Leq(Abs(Sub(Twice(n), Twice(v))), Add(Whole(1), Twice(t)))

ReadErrs(F, R, conv, scal, raw) ==
   IF F.ft = "String" THEN When(R # "UString", "ErrorExpectingUString")
   ELSE IF R = "UString" THEN {"ErrorExpectingNumeric"}
   ELSE IF F.ft \in {"Integer", "ScaledInteger"} THEN
      When(R \in RealReps /\ conv = 0, "ErrorConversionRequired")
      \cup (IF Scaled(F, scal) THEN
               LET v == Exact(F, raw)
                   t == RTol(F, raw)
               IN When(R \in IntReps /\ (ExBelow(v, t, RLo(R)) \/ ExAbove(v, t, RHi(R))), "ErrorScaledValueNotRepresentable")
                  \cup When(R = "Real32" /\ Lt(Sub(FltMax, t), Abs(v)), "ErrorScaledValueNotRepresentable")
            ELSE When(R \in IntReps /\ (Lt(raw, RLo(R)) \/ Lt(RHi(R), raw)), "ErrorValueNotRepresentable"))
   ELSE When(R \in IntReps \cup {"Bool"} /\ conv = 0, "ErrorConversionRequired")
        \cup When(R \in IntReps /\ (~IsNum(raw) \/ Lt(raw, RLo(R)) \/ Lt(IF R = "Int64" THEN I64Hi ELSE RHi(R), raw)), "ErrorValueNotRepresentable")
        \cup When(R = "Real32" /\ F.ft = "Float2" /\ (raw.k \in {"inf", "ninf"} \/ (IsNum(raw) /\ Lt(FltMax, Abs(raw)))), "ErrorValueNotRepresentable")

OneIf(c, got) == IF c THEN Eq(got, Whole(1)) ELSE got.s = 0

ReadOk(F, R, conv, scal, raw, got) ==
   IF F.ft = "String" THEN R = "UString" /\ Same(raw, got)
   ELSE IF F.ft \in {"Integer", "ScaledInteger"} THEN
      /\ IsNum(got)
      /\ IF Scaled(F, scal) THEN
            LET v == Exact(F, raw)
                t == RTol(F, raw)
            IN CASE R \in IntReps -> Leq(RLo(R), got) /\ Leq(got, RHi(R)) /\ ExIs(v, t, Num(got))
                 [] R = "Bool" -> \/ got.s = 0 /\ Leq(Twice(Abs(v)), Add(Whole(1), Twice(t)))
                                  \/ Eq(got, Whole(1)) /\ Leq(Sub(Whole(1), Twice(t)), Twice(Abs(v)))
                 [] R = "Real64" -> Leq(Abs(Sub(got, v)), t)
                 [] R = "Real32" -> Leq(Abs(Sub(got, v)), Add(t, Pow2(got.u)))
         ELSE CASE R \in IntReps -> Eq(raw, got)
                [] R = "Bool" -> OneIf(raw.s # 0, got)
                [] R \in RealReps -> Rounded(raw, got)
   ELSE CASE R \in IntReps -> IsNum(got) /\ IsNum(raw) /\ IsTrunc(raw, Num(got))
          [] R = "Bool" -> IsNum(got) /\ OneIf(raw.k # "num" \/ raw.s # 0, got)
          [] R = "Real64" -> Same(raw, got)
          [] R = "Real32" -> IF F.ft = "Float2" /\ IsNum(raw) THEN IsNum(got) /\ Rounded(raw, got) ELSE Same(raw, got)

ReadMust(F, R, conv, scal, raw) ==
   LET e == ReadErrs(F, R, conv, scal, raw)
   IN IF Scaled(F, scal) THEN e \ {"ErrorScaledValueNotRepresentable"} ELSE e
ReadStep(F, R, conv, scal, raw, r, got) ==
   IF r = "ok" THEN ReadMust(F, R, conv, scal, raw) = {} /\ ReadOk(F, R, conv, scal, raw, got)
   ELSE r \in ReadErrs(F, R, conv, scal, raw)

(* ----------------------------------------- one value x among others, all equal to y *)

WritePair(F, R, conv, scal, x, y, r, rawx, rawy) ==
   IF r = "ok" THEN WriteStep(F, R, conv, scal, x, r, rawx) /\ WriteStep(F, R, conv, scal, y, r, rawy)
   ELSE r \in WriteErrs(F, R, conv, scal, x) \cup WriteErrs(F, R, conv, scal, y)

ReadPair(F, R, conv, scal, rawx, rawy, r, gotx, goty) ==
   IF r = "ok" THEN ReadStep(F, R, conv, scal, rawx, r, gotx) /\ ReadStep(F, R, conv, scal, rawy, r, goty)
   ELSE r \in ReadErrs(F, R, conv, scal, rawx) \cup ReadErrs(F, R, conv, scal, rawy)

(* ------------------------------------------------------- scalar elements *)

\* [ft, x, lo, hi] as given by the caller; for single precision the bounds are cut to its range
CutLo(ft, v) == IF ft = "Float1" /\ (v.k = "ninf" \/ (IsNum(v) /\ Lt(v, Neg(FltMax)))) THEN [k |-> "num"] @@ Neg(FltMax) ELSE v
CutHi(ft, v) == IF ft = "Float1" /\ (v.k = "inf" \/ (IsNum(v) /\ Lt(FltMax, v))) THEN [k |-> "num"] @@ FltMax ELSE v

\* a <= b for numbers and specials; never for nan
XLeq(a, b) == CASE a.k = "nan" \/ b.k = "nan" -> FALSE
                [] a.k = "ninf" \/ b.k = "inf" -> TRUE
                [] a.k = "inf" \/ b.k = "ninf" -> FALSE
                [] OTHER -> Leq(a, b)

Inside(ft, x, lo, hi) == /\ IsNum(x)
                         /\ XLeq(CutLo(ft, lo), x)
                         /\ XLeq(x, CutHi(ft, hi))

\* creating an element from raw values; got: what it then reports
NewStep(ft, x, lo, hi, r, got) ==
   IF Inside(ft, x, lo, hi)
   THEN r = "ok" /\ Same(got.x, x) /\ Same(got.lo, CutLo(ft, lo)) /\ Same(got.hi, CutHi(ft, hi))
   ELSE r = "ErrorValueOutOfBounds"

\* creating a scaled integer from scaled values: each of the three is rounded to the nearest raw value
Fits(F, v) == IsNum(v) /\ ~NearBelow(F, v, I64Lo) /\ ~NearAbove(F, v, I64Hi)
NewScaledErrs(F, x, lo, hi) ==
   When(~Fits(F, x) \/ ~Fits(F, lo) \/ ~Fits(F, hi), "ErrorScaledValueNotRepresentable")
   \cup When(~Fits(F, x) \/ ~Fits(F, lo) \/ ~Fits(F, hi), "ErrorValueOutOfBounds")
   \cup (IF Fits(F, x) /\ Fits(F, lo) /\ Fits(F, hi)
         THEN \* the raw values are out of order, or may be: they differ by one rounding at most
              LET a == Abs(F.scale)
                  ux == U(F, x)
                  ul == U(F, lo)
                  uh == U(F, hi)
              IN When(Lt(ux, ul) \/ Lt(uh, ux), "ErrorValueOutOfBounds")
         ELSE {})
\* must fail: further out than rounding can bridge
NewScaledMust(F, x, lo, hi) ==
   \/ ~IsNum(x) \/ ~IsNum(lo) \/ ~IsNum(hi)
   \/ LET a == Abs(F.scale)
          slack == Add(a, Shift(Add(WTol(F, x), Add(WTol(F, lo), WTol(F, hi))), 1))
      IN Lt(Add(U(F, x), slack), U(F, lo)) \/ Lt(Add(U(F, hi), slack), U(F, x))

NewScaledStep(F, x, lo, hi, r, got) ==
   IF r = "ok"
   THEN /\ ~NewScaledMust(F, x, lo, hi)
        /\ Nearest(F, x, Num(got.x)) /\ Nearest(F, lo, Num(got.lo)) /\ Nearest(F, hi, Num(got.hi))
        /\ Leq(got.lo, got.x) /\ Leq(got.x, got.hi)
   ELSE r \in NewScaledErrs(F, x, lo, hi)

\* the scaled value an element reports for a raw value
ScaledReport(F, raw, got) == IsNum(got) /\ Leq(Abs(Sub(got, Exact(F, raw))), RTol(F, raw))
=============================================================================

----------------------------- MODULE MC_Convert -----------------------------
(* The conversion rules on every combination of a grid of small numbers: they always say something,
   what they accept is unique up to ties, and nothing accepted is silently altered. *)
EXTENDS Convert

CONSTANTS MaxAbs,      \* bounds of fields
          MaxQuarter,  \* values are quarters up to this
          PosScales,   \* in eighths
          NegScales    \* in eighths, without the sign

Scales == PosScales \cup {0 - s : s \in NegScales}

VARIABLES c

(* the arithmetic against TLC's own *)
ToInt(x) == LET RECURSIVE Val(_, _)
                Val(m, i) == IF i > Len(m) THEN 0 ELSE m[i] + Base * Val(m, i + 1)
            IN x.s * Val(NShl(x.m, x.e), 1)
Samples == {0, 1, 2, 3, 5, 4094, 4095, 4096, 4097, 8191, 20000, 32767, 40000}
ASSUME \A a \in Samples, b \in Samples :
          /\ ToInt(Add(Whole(a), Whole(b))) = a + b
          /\ ToInt(Sub(Whole(a), Whole(b))) = a - b
          /\ ToInt(Add(Whole(-a), Whole(b))) = b - a
          /\ Cmp(Whole(a), Whole(b)) = (IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0)
          /\ Cmp(Whole(-a), Whole(-b)) = (IF a < b THEN 1 ELSE IF a > b THEN -1 ELSE 0)
ASSUME \A a \in Samples, b \in -8192..8192 : ToInt(Mul(Whole(a), Whole(b))) = a * b
ASSUME \A a \in 0..100, k \in 0..20 : ToInt(Shift(Whole(a), k)) = a * 2^k
ASSUME ToInt(Sub(Add(Pow2(70), Whole(5)), Pow2(70))) = 5
ASSUME Lt(Add(Pow2(60), Pow2(-60)), Add(Pow2(60), Pow2(-59)))

Q(n) == [k |-> "num", u |-> -60] @@ Shift(Whole(n), -2)
Eighth(n) == Shift(Whole(n), -3)
I(n) == [k |-> "num", u |-> 0] @@ Whole(n)

Ints == -MaxAbs..MaxAbs
Vals(R) == CASE R = "UInt8" -> {I(n) : n \in 0..MaxAbs + 2}
             [] R \in IntReps -> {I(n) : n \in -(MaxAbs + 2)..(MaxAbs + 2)}
             [] R = "Bool" -> {I(0), I(1)}
             [] R \in RealReps -> {Q(n) : n \in -MaxQuarter..MaxQuarter} \cup {[k |-> "nan"], [k |-> "inf"], [k |-> "ninf"]}
             [] OTHER -> {[k |-> "str", v |-> "a"]}
ModelReps == {"Int8", "UInt8", "Bool", "Real64", "UString"}

Field(t, a, b, s, o) == [ft |-> t, lo |-> Whole(a), hi |-> Whole(b), scale |-> Eighth(s), off |-> Eighth(o)]

\* a field is chosen first, then a buffer and a value
Init == c = [stage |-> 0]
Next ==
   \/ /\ c.stage = 0
      /\ \E t \in {"Integer", "ScaledInteger"}, a \in Ints, b \in Ints, s \in Scales, o \in {0, 3} :
            /\ a <= b
            /\ (t = "Integer" => s = 8 /\ o = 0)
            /\ c' = [stage |-> 1, F |-> Field(t, a, b, s, o), a |-> a, b |-> b]
   \/ /\ c.stage = 1
      /\ \E R \in ModelReps, cv \in {0, 1}, sc \in {0, 1} :
            \E x \in Vals(R) :
               c' = [stage |-> 2, F |-> c.F, a |-> c.a, b |-> c.b, R |-> R, conv |-> cv, scal |-> sc, x |-> x]
Spec == Init /\ [][Next]_c

Judge ==
   LET Errs == WriteErrs(c.F, c.R, c.conv, c.scal, c.x)
       Accepted == {n \in c.a - 1..c.b + 1 : WriteStep(c.F, c.R, c.conv, c.scal, c.x, "ok", I(n))}
       sc == Scaled(c.F, c.scal)
   IN \* every write has an outcome; it can succeed and fail only when the value sits on a tie
      /\ Errs # {} \/ Accepted # {}
      /\ (Errs # {} /\ Accepted # {}) => sc
      \* one raw value, or the two next to a tie
      /\ Cardinality(Accepted) <= (IF sc THEN 2 ELSE 1)
      \* what was accepted is inside the field and differs from the value by half a step at most
      /\ \A n \in Accepted :
            /\ c.a <= n /\ n <= c.b
            /\ sc => Leq(Twice(Abs(Sub(Exact(c.F, Whole(n)), c.x))), Add(Abs(c.F.scale), Pow2(-30)))
            /\ (~sc /\ c.R \in IntReps) => ReadStep(c.F, c.R, c.conv, c.scal, I(n), "ok", c.x)
            \* every stored value can be read as a 64-bit integer, unchanged
            /\ ReadStep(c.F, "Int64", 0, 0, I(n), "ok", I(n))
      \* nothing is stored without the caller's consent to a conversion
      /\ (c.conv = 0 /\ c.R \in RealReps) => Accepted = {}
      /\ c.R = "UString" => Errs = {"ErrorExpectingNumeric"}
Sound == c.stage = 2 => Judge
=============================================================================

"""Exact representation of numbers for the specification module Big."""
import math
from fractions import Fraction


def limbs(n):
    out = []
    while n:
        out.append(n & 4095)
        n >>= 12
    return out


def of_int(v):
    if v == 0:
        return {"k": "num", "s": 0, "m": [], "e": 0, "u": 0}
    return {"k": "num", "s": 1 if v > 0 else -1, "m": limbs(abs(v)), "e": 0, "u": 0}


def of_float(v, single=False):
    """u: exponent of the last digit of the floating point format around v"""
    if math.isnan(v):
        return {"k": "nan"}
    if math.isinf(v):
        return {"k": "inf" if v > 0 else "ninf"}
    prec, emin = (24, -149) if single else (53, -1074)
    if v == 0:
        return {"k": "num", "s": 0, "m": [], "e": 0, "u": emin}
    fr = Fraction(v)
    m, e = abs(fr.numerator), -(fr.denominator.bit_length() - 1)
    while m and m % 2 == 0:
        m //= 2
        e += 1
    u = max(emin, math.frexp(v)[1] - prec)
    return {"k": "num", "s": 1 if v > 0 else -1, "m": limbs(m), "e": e, "u": u}


def parse(text, rep):
    """Value as printed by the driver for an element type."""
    if rep == "UString":
        return {"k": "str", "v": text}
    if rep in ("Real32", "Real64"):
        return of_float(float("nan") if text == "nan" else float.fromhex(text), rep == "Real32")
    return of_int(int(text))

"""P16, P17: values between buffers, fields and elements."""
import math
import random
import struct

import num
from core import Cmd, build, events_of, pct_out

INT_RANGE = {"Int8": (-128, 127), "UInt8": (0, 255), "Int16": (-32768, 32767), "UInt16": (0, 65535),
             "Int32": (-(1 << 31), (1 << 31) - 1), "UInt32": (0, (1 << 32) - 1), "Int64": (-(1 << 63), (1 << 63) - 1)}
REPS = list(INT_RANGE) + ["Bool", "Real32", "Real64", "UString"]
I64 = INT_RANGE["Int64"]
FLT_MAX = struct.unpack("<f", b"\xff\xff\x7f\x7f")[0]
FLT_MIN = 2.0 ** -126
DBL_MAX = float.fromhex("0x1.fffffffffffffp+1023")
NAN, INF = float("nan"), float("inf")
NONE = {"k": "none"}


def f32(v):
    try:
        return struct.unpack("<f", struct.pack("<f", v))[0]
    except OverflowError:
        return math.copysign(FLT_MAX, v)


def f32_next(v, d):
    """neighbouring single precision number"""
    n = struct.unpack("<i", struct.pack("<f", v))[0]
    if v == 0:
        return d * 2.0 ** -149
    n += d if v > 0 else -d
    w = struct.unpack("<f", struct.pack("<i", n))[0]
    return w


class Field:
    def __init__(self, ft, lo, hi, scale=1.0, off=0.0):
        self.ft, self.lo, self.hi, self.scale, self.off = ft, lo, hi, scale, off

    def args(self):
        if self.ft == "String":
            return dict(type="String", min=0, max=0)
        if self.ft.startswith("Float"):
            return dict(type="Float", prec="single" if self.ft == "Float1" else "double", min=float(self.lo).hex(), max=float(self.hi).hex())
        a = dict(type=self.ft, min=self.lo, max=self.hi)
        if self.ft == "ScaledInteger":
            a.update(scale=self.scale.hex(), offset=self.off.hex())
        return a

    def ev(self):
        if self.ft == "String":
            lo = hi = NONE
        elif self.ft.startswith("Float"):
            lo, hi = num.of_float(self.lo), num.of_float(self.hi)
        else:
            lo, hi = num.of_int(self.lo), num.of_int(self.hi)
        return dict(ft=self.ft, lo=lo, hi=hi, scale=num.of_float(self.scale), off=num.of_float(self.off))

    @property
    def raw_rep(self):
        return {"Float1": "Real32", "Float2": "Real64", "String": "UString"}.get(self.ft, "Int64")


def near_real(c):
    """doubles around a real c"""
    c = float(c)
    return [c, math.nextafter(c, INF), math.nextafter(c, -INF)]


def fit(rep, v):
    """v as a value of the element type, or None"""
    if rep == "UString":
        return v if isinstance(v, str) else None
    if isinstance(v, str):
        return None
    if rep in INT_RANGE:
        if math.isnan(v) or math.isinf(v) or v != math.floor(v):
            return None
        v = int(v)
        return v if INT_RANGE[rep][0] <= v <= INT_RANGE[rep][1] else None
    if rep == "Bool":
        return int(v) if v in (0, 1) else None
    if rep == "Real32":
        if math.isnan(v) or math.isinf(v):
            return float(v)
        if abs(v) > FLT_MAX:
            return None
        return f32(float(v))
    try:
        return float(v)
    except OverflowError:
        return None


def show(rep, v):
    if rep == "UString":
        return v
    if rep in ("Real32", "Real64"):
        return "nan" if math.isnan(v) else v.hex() if not math.isinf(v) else ("inf" if v > 0 else "-inf")
    return str(v)


STRINGS = ["", "a", "0", "12", "grün", "x" * 127, "y" * 128, "z" * 300, "a<&>]]>\"'", "-1.5"]


def candidates(f, rep, scal):
    """values worth trying: the edges of the buffer type, of the field and of 64 bits"""
    if rep == "UString":
        return list(STRINGS)
    vs = set()
    real = rep in ("Real32", "Real64")
    if rep in INT_RANGE:
        lo, hi = INT_RANGE[rep]
        vs |= {lo, lo + 1, hi, hi - 1, 0, 1, -1, 2, 100}
    elif rep == "Bool":
        return [0, 1]
    else:
        vs |= {0.0, 1.0, -1.0, 0.5, -0.5, 1.5, -1.5, 0.499, 2.5, -2.5, FLT_MAX, -FLT_MAX, FLT_MIN, 2.0 ** -149, 16777217.0, 0.1, 1e-3,
               2.0 ** 31, -2.0 ** 31, 2.0 ** 63, -2.0 ** 63, 2.0 ** 62, 2.0 ** 64, INF, -INF, NAN, 123456.789}
        vs |= {float(x) + d for k in (7, 8, 15, 16, 31, 32) for x in (2 ** k, -2 ** k) for d in (-1, -0.5, 0, 0.5)}
        if rep == "Real64":
            vs |= {DBL_MAX, -DBL_MAX, 1e300, 2.0 ** 128, FLT_MAX * (1 + 2.0 ** -30), -FLT_MAX * (1 + 2.0 ** -30), 2.0 ** 63 - 1024, 9.3e18, -9.3e18,
                   -2.0 ** 63 - 2048, 1e-310, 2.0 ** -1074}
        else:
            vs |= {2.0 ** 63 - 2.0 ** 39, f32_next(-2.0 ** 63, -1)}
    if f.ft in ("Integer", "ScaledInteger"):
        scaled = scal and f.ft == "ScaledInteger"
        for b in (f.lo, f.hi, I64[0], I64[1], (f.lo + f.hi) // 2):
            for d in (-2, -1, 0, 1, 2):
                if scaled:
                    try:
                        for h in (0, 0.49, 0.51, 0.5, -0.49, -0.51):
                            vs.add((float(b + d) + h) * f.scale + f.off)
                    except OverflowError:
                        pass
                else:
                    vs.add(b + d)
                    if real:
                        vs |= {float(b + d) + 0.5, float(b + d) - 0.25}
                        vs |= set(near_real(b + d))
        if scaled and not real:
            vs |= {math.floor(v) for v in vs if not (isinstance(v, float) and (math.isinf(v) or math.isnan(v)))}
            vs |= {math.ceil(v) for v in vs if not (isinstance(v, float) and (math.isinf(v) or math.isnan(v)))}
    return list(vs)


def fields(r, thorough):
    out = []
    ints = [(0, 0), (5, 5), (-7, -7), (0, 1), (-1, 0), (0, 255), (-128, 127), (0, 127), (-3, 12), (0, 256), (-32768, 32767), (0, 65535), (100, 70000),
            (-(1 << 31), (1 << 31) - 1), (0, (1 << 32) - 1), (0, 1 << 32), (-(1 << 40), 1 << 41), I64, (0, I64[1]), (I64[0], 0), (I64[1], I64[1]),
            (I64[0], I64[0]), (I64[0], I64[0] + 5), (I64[1] - 5, I64[1]), (-1, I64[1]), (1 << 33, (1 << 33) + 7), (-(1 << 33) - 3, -(1 << 33))]
    for lo, hi in ints:
        out.append(Field("Integer", lo, hi))
    scales = [1.0, 0.5, 0.001, -0.25, 1e-6, 2.0, 1000.0, 0.1, -3.0, 1e9, 2.0 ** -40, 1e20]
    offs = [0.0, 0.5, -100.0, 1234.567, 1e6, -0.001]
    pairs = [(s, o) for s in scales for o in offs]
    r.shuffle(pairs)
    for k, (lo, hi) in enumerate(ints):
        out.append(Field("ScaledInteger", lo, hi, 1.0, 0.0))
        for s, o in pairs[k::len(ints)][: 4 if thorough else 2]:
            out.append(Field("ScaledInteger", lo, hi, s, o))
    for ft in ("Float1", "Float2"):
        m = FLT_MAX if ft == "Float1" else DBL_MAX
        out.append(Field(ft, -m, m))
        out.append(Field(ft, -1.0, 1.0))
    out.append(Field("String", 0, 0))
    return out


def value_ev(wrep, v):
    return num.parse(pct_out(v), "UString") if wrep == "UString" else num.of_float(v) if wrep in ("Real32", "Real64") else num.of_int(v)


def cell(f, wrep, conv, scal, v, reads, among=None):
    """among: (n, position, filler, records per write, records per read, extra stride)"""
    def prog(wd):
        ev = dict(op="cell", wrep=wrep, wconv=conv, wscal=scal, x=value_ev(wrep, v), n=1, **f.ev())
        args = {}
        if among:
            n, at, fill, wcap, rcap, extra = among
            ev.update(n=n, y=value_ev(wrep, fill))
            args = dict(n=n, at=at, fill=show(wrep, fill), wcap=wcap, rcap=rcap, extra=0 if wrep == "UString" else extra)
        return [Cmd("cell", ev=ev, path="%s/c.e57" % wd, wrep=wrep, wconv=conv, wscal=scal, wval=show(wrep, v),
                    reads=",".join("%s:%d:%d" % t for t in reads), **dict(f.args()), **args)]
    prog.field = f
    return prog


def some(r, f, wrep, scal, big=False):
    """a place for a value among others that are probably accepted"""
    if f.ft == "String":
        fill = r.choice(STRINGS) if wrep == "UString" else fit(wrep, 1)
    else:
        raw = r.choice([f.lo, f.hi, max(f.lo, min(f.hi, 1))])
        x = raw * f.scale + f.off if scal and f.ft == "ScaledInteger" else raw
        if wrep not in ("Real32", "Real64", "UString"):
            x = round(x)
        fill = fit(wrep, x) if wrep != "UString" else r.choice(STRINGS)
    if fill is None:
        return None
    n = 1 + r.choice([9000] if big else [1, 2, 3, 7, 8, 9, 40, 130])
    caps = [1, 2, 3, 5, 8, 64, n, n]
    wcap, rcap = r.choice(caps), r.choice(caps)
    if big:
        wcap, rcap = max(wcap, 64), max(rcap, 64)
    return n, r.choice([0, n - 1, n // 2, r.randrange(n)]), fill, wcap, rcap, r.choice([0, 0, 8])


def cell_events(prog):
    evs = events_of(prog)
    for e in evs:
        if e.get("op") == "cell":
            fix_cell(e)
    return evs


def fix_cell(e):
    rr = {"Float1": "Real32", "Float2": "Real64", "String": "UString"}.get(e["ft"], "Int64")
    ok = e.get("rawr") == "ok"
    e["raw"] = num.parse(e["raw"], rr) if ok else NONE
    e["rawy"] = num.parse(e["rawy"], rr) if ok and e["n"] > 1 else NONE
    e.setdefault("same", False)
    for k in ("mk", "w", "rawr"):
        e.setdefault(k, "none")
    reads = []
    for d in e.get("reads", []):
        d = dict(d)
        d["conv"], d["scal"] = int(d["conv"]), int(d["scal"])
        d["got"] = num.parse(d["got"], d["rep"]) if d["r"] == "ok" else NONE
        d["goty"] = num.parse(d["goty"], d["rep"]) if d["r"] == "ok" and e["n"] > 1 else NONE
        reads.append(d)
    e["reads"] = reads


ALL_READS = [(rep, c, s) for rep in REPS for c in (0, 1) for s in (0, 1)]


def cells(r, thorough):
    out = []
    for f in fields(r, thorough):
        for wrep in REPS:
            for conv in (0, 1):
                for scal in (0, 1):
                    cand = []
                    for v in candidates(f, wrep, scal):
                        w = fit(wrep, v)
                        if w is not None and w not in cand:
                            cand.append(w)
                    # what must be refused anyway needs few values
                    mismatch = (wrep == "UString") != (f.ft == "String")
                    needs = (wrep in ("Real32", "Real64") and f.ft in ("Integer", "ScaledInteger")) or (wrep in INT_RANGE and f.ft.startswith("Float"))
                    limit = 2 if mismatch else 4 if needs and not conv else (60 if thorough else 8)
                    if scal and f.ft != "ScaledInteger":
                        limit = min(limit, 4)
                    if len(cand) > limit:
                        cand = r.sample(cand, limit)
                    for v in cand:
                        reads = r.sample(ALL_READS, 44 if thorough and r.random() < 0.2 else 5)
                        out.append(cell(f, wrep, conv, scal, v, reads, some(r, f, wrep, scal, r.random() < 0.003) if r.random() < 0.3 else None))
        # stored values at the edges, read with everything
        if f.ft in ("Integer", "ScaledInteger"):
            stored = {f.lo, f.hi, (f.lo + f.hi) // 2, max(f.lo, min(f.hi, 0)), max(f.lo, min(f.hi, 1)), max(f.lo, min(f.hi, -1))}
            for rep, (lo, hi) in INT_RANGE.items():
                for b in (lo, hi):
                    for d in (-1, 0, 1):
                        if f.ft == "Integer" or f.scale == 1.0:
                            stored.add(b + d)
                        else:
                            t = ((b + d) - f.off) / f.scale
                            if abs(t) < 2.0 ** 62:
                                stored |= {math.floor(t), math.floor(t) + 1}
            stored = [v for v in stored if f.lo <= v <= f.hi]
            rep = "Int64"
        elif f.ft == "String":
            stored, rep = STRINGS, "UString"
        else:
            rep = f.raw_rep
            stored = [w for w in (fit(rep, v) for v in candidates(f, rep, 0)) if w is not None]
        if not thorough and len(stored) > 14 and f.ft == "ScaledInteger":
            stored = r.sample(stored, 14)
        for v in stored:
            reads = ALL_READS if f.ft != "String" else r.sample(ALL_READS, 12)
            out.append(cell(f, rep, 0, 0, v, reads, some(r, f, rep, 0) if r.random() < 0.2 else None))
    return out


def check_p16(ck):
    exe = build("asan")
    ck.model("MC_Convert", "MC_Convert_deep.cfg" if ck.thorough else "MC_Convert.cfg")
    programs = cells(ck.rng, ck.thorough)
    ck.conform(exe, "Trace_Convert", group(programs), "cells", post=cell_events, tlc_timeout=3000 if ck.thorough else 800)
    return ck.finish("model_checking", RULE16)


def group(programs, n=20):
    """several cells per program: fewer resets"""
    out = []
    for k in range(0, len(programs), n):
        part = programs[k:k + n]
        out.append(lambda wd, part=part: [c for p in part for c in p(wd)])
    return out


RULE16 = ("one-value transfers: every field kind x buffer element type x conversion x scaling option, values at and next to the limits of the "
          "buffer type, of the field and of 64 bits, stored edge values read with all 44 buffer kinds; each outcome and delivered value must be "
          "the one the exact arithmetic of the specification allows")


# ------------------------------------------------------------------------------------------ P17

def node_cmds(r, thorough):
    """Constructions of scalar elements; returns the programs."""
    made = []

    def fl(v):
        return show("Real64", float(v))

    edge = [0, 1, -1, 127, 128, -128, -129, 255, 256, (1 << 31) - 1, 1 << 31, -(1 << 31), (1 << 32), I64[0], I64[0] + 1, I64[1], I64[1] - 1, 1 << 62, 42]
    for lo in edge:
        for hi in edge:
            vs = {lo - 1, lo, lo + 1, hi - 1, hi, hi + 1, 0, I64[0], I64[1]}
            vs = [v for v in vs if I64[0] <= v <= I64[1]]
            for v in (vs if thorough else r.sample(vs, min(5, len(vs)))):
                made.append(("Integer", v, lo, hi, None, None, None))
                s, o = r.choice([(1.0, 0.0), (0.001, 0.0), (0.5, 100.0), (-2.0, 1.0), (1e-3, -5.5)])
                made.append(("ScaledInteger", v, lo, hi, s, o, "raw"))
                if all(-(1 << 31) <= t < 1 << 31 for t in (v, lo, hi)):
                    made.append(("ScaledInteger", v, lo, hi, s, o, "int"))
    for v in edge:
        made.append(("Integer0", v, I64[0], I64[1], None, None, None))
    fe = [0.0, 1.0, -1.0, 0.1, f32(0.1), 1e10, -1e10, FLT_MAX, -FLT_MAX, FLT_MAX * (1 + 2.0 ** -30), -FLT_MAX * (1 + 2.0 ** -30), DBL_MAX, -DBL_MAX, 1e-300,
          2.0 ** -1074, 2.0 ** -149, INF, -INF, NAN, 1e39, -1e39, 16777217.0]
    for ft in ("Float1", "Float2"):
        for lo in fe:
            for hi in fe:
                vs = [lo, hi, 0.0, math.nextafter(lo, -INF), math.nextafter(lo, INF), math.nextafter(hi, INF), math.nextafter(hi, -INF), NAN, INF, -INF]
                for v in (vs if thorough else r.sample(vs, 4)):
                    made.append((ft, v, lo, hi, None, None, None))
        for v in fe:
            made.append((ft + "0", v, -DBL_MAX, DBL_MAX, None, None, None))
    scales = [1.0, 0.5, 0.001, -0.25, 1e-6, 3.0, 1e9, 0.1, 1e-15]
    for s in scales:
        for o in (0.0, 0.25, -100.0, 1e6, 1234.5678):
            for _ in range(40 if thorough else 14):
                raw = sorted(r.choice([0, 1, -1, 7, 255, -1000, 1 << 20, 1 << 40, -(1 << 52), r.randint(-10 ** 6, 10 ** 6)]) for _ in range(3))
                k = r.random()
                if k < 0.25:
                    r.shuffle(raw)
                vals = [(t + r.choice([0, 0, 0.3, -0.3, 0.49, -0.49, 0.5])) * s + o for t in raw]
                if k > 0.85:
                    vals[r.randrange(3)] = r.choice([1e300, -1e300, INF, -INF, NAN, 2.0 ** 63 * s + o, -2.0 ** 63 * s * 1.001 + o, 2.0 ** 64 * s])
                if k > 0.97:
                    vals = [r.choice([1e300, -1e300, INF, NAN])] * 3
                made.append(("Scaled", vals[1], vals[0], vals[2], s, o, "scaled"))
    progs = []
    for k in range(0, len(made), 40):
        progs.append(lambda wd, part=made[k:k + 40], k=k: node_prog(wd, part, k))
    return progs, len(made)


def node_prog(wd, part, k):
    cmds = [Cmd("imf.open", f="f", path="%s/n%d.e57" % (wd, k), mode="w")]
    for j, (ft, v, lo, hi, s, o, ctor) in enumerate(part):
        n = "n%d" % j
        if ft.startswith("Integer"):
            ev = dict(op="new", ft="Integer", x=num.of_int(v), lo=num.of_int(lo), hi=num.of_int(hi))
            a = dict(type="Integer", value=v)
            if ft == "Integer":
                a.update(min=lo, max=hi)
        elif ft == "ScaledInteger":
            ev = dict(op="new", ft="Integer", x=num.of_int(v), lo=num.of_int(lo), hi=num.of_int(hi), s=num.of_float(s), o=num.of_float(o))
            a = dict(type="ScaledInteger", ctor=ctor, value=v, min=lo, max=hi, scale=s.hex(), offset=o.hex())
        elif ft == "Scaled":
            ev = dict(op="newscaled", ft="ScaledInteger", x=num.of_float(v), lo=num.of_float(lo), hi=num.of_float(hi), scale=num.of_float(s), off=num.of_float(o))
            a = dict(type="ScaledInteger", ctor="scaled", value=show("Real64", v), min=show("Real64", lo), max=show("Real64", hi), scale=s.hex(), offset=o.hex())
        else:
            ev = dict(op="new", ft=ft[:6], x=num.of_float(v), lo=num.of_float(lo), hi=num.of_float(hi))
            a = dict(type="Float", prec="single" if ft.startswith("Float1") else "double", value=show("Real64", v))
            if not ft.endswith("0"):
                a.update(min=show("Real64", lo), max=show("Real64", hi))
        cmds.append(Cmd("node.new", ev=ev, f="f", n=n, **a))
        cmds.append(Cmd("node.attrs", ev=dict(op="attrs"), n=n))
        if "caled" in ft:
            cmds.append(Cmd("node.scaled", ev=dict(op="scaledvals", s=num.of_float(s), o=num.of_float(o)), n=n))
    cmds.append(Cmd("imf.cancel", f="f"))
    return cmds


def node_events(prog):
    evs = events_of(prog)
    out = []
    cur = None
    for e in evs:
        if e["op"] in ("new", "newscaled"):
            cur = e
            e["got"] = {"x": NONE, "lo": NONE, "hi": NONE}
            out.append(e)
        elif e["op"] == "attrs":
            if cur["r"] == "ok":
                if e["r"] != "ok":
                    out.append({"op": "setup", "cmd": "node.attrs", "r": e["r"]})
                    continue
                p = (lambda t: num.of_int(int(t))) if e.get("t", e.get("type")) in ("Integer", "ScaledInteger") or cur["op"] == "newscaled" or cur["ft"] == "Integer" \
                    else (lambda t: num.parse(t, "Real64"))
                cur["got"] = {"x": p(e["value"]), "lo": p(e["min"]), "hi": p(e["max"])}
                if "s" in cur or cur["op"] == "newscaled":
                    sc, of = (cur["s"], cur["o"]) if "s" in cur else (cur["scale"], cur["off"])
                    # scale and offset are reported unchanged
                    if num.of_float(float.fromhex(e["scale"])) != sc or num.of_float(float.fromhex(e["offset"])) != of:
                        cur["got"]["x"] = {"k": "wrong-scale"}
        elif e["op"] == "scaledvals":
            if cur["r"] == "ok":
                ev = dict(op="report", r=e["r"], ft="ScaledInteger", scale=e["s"], off=e["o"], x=cur["got"]["x"], lo=cur["got"]["lo"], hi=cur["got"]["hi"],
                          got=NONE)
                if e["r"] == "ok":
                    ev["got"] = {"x": num.parse(e["svalue"], "Real64"), "lo": num.parse(e["smin"], "Real64"), "hi": num.parse(e["smax"], "Real64")}
                out.append(ev)
        else:
            out.append(e)
    return out


def bound_cells(r, thorough):
    """Writes at and next to both bounds of every field width."""
    out = []

    def cell_(f, wrep, conv, scal, v, reads):
        out.append(cell(f, wrep, conv, scal, v, reads, some(r, f, wrep, scal, r.random() < 0.01) if r.random() < 0.4 else None))
    ranges = [(0, 0), (3, 3), (-9, -9), I64, (I64[0], I64[0]), (I64[1], I64[1])]
    for b in range(1, 64):
        w = 1 << b
        ranges.append((0, w - 1))
        lo = r.randrange(-(1 << 62), 1 << 62) >> r.randint(0, 62)
        ranges.append((lo, min(I64[1], lo + w - 1)))
        ranges.append((lo, min(I64[1], lo + r.randint(w >> 1, w - 1))))
        ranges.append((-(w >> 1), (w >> 1) - 1))
        ranges.append((I64[0], I64[0] + w - 1))
        ranges.append((I64[1] - w + 1, I64[1]))
    for lo, hi in ranges:
        vs = {lo - 1, lo, hi, hi + 1, I64[0], I64[1], 0, lo - 2, hi + 2, hi + (hi - lo + 1), lo - (hi - lo + 1)}
        for v in vs:
            for ft in ("Integer", "ScaledInteger"):
                s, o = r.choice([(1.0, 0.0), (0.001, 10.0), (-0.5, 0.0), (0.25, 3.0)])
                f = Field(ft, lo, hi, s, o)
                reps = [rep for rep in INT_RANGE if INT_RANGE[rep][0] <= v <= INT_RANGE[rep][1]]
                if reps:
                    cell_(f, r.choice(reps), 0, 0, v, [("Int64", 0, 0)])
                if abs(v) <= 1 << 53:
                    cell_(f, "Real64", 1, 0, float(v), [])
                    if ft == "ScaledInteger":
                        cell_(f, "Real64", 1, 1, v * s + o, [("Real64", 1, 1)])
                        t = fit(r.choice(["Int32", "Int64"]), round(v * s + o))
                        if t is not None:
                            cell_(f, "Int64", 0, 1, t, [])
                elif ft == "ScaledInteger" and r.random() < 0.5:
                    cell_(f, "Real64", 1, 1, float(v) * s + o, [])
    return out


def check_p17(ck):
    exe = build("asan")
    ck.model("MC_Convert", "MC_Convert_deep.cfg" if ck.thorough else "MC_Convert.cfg")
    progs, n = node_cmds(ck.rng, ck.thorough)
    ck.conform(exe, "Trace_Convert", progs, "elements", post=node_events, tlc_timeout=3000 if ck.thorough else 800)
    ck.conform(exe, "Trace_Convert", group(bound_cells(ck.rng, ck.thorough)), "fields", post=cell_events, tlc_timeout=3000 if ck.thorough else 800)
    return ck.finish("model_checking", RULE17)


RULE17 = ("constructors of integer, scaled integer (raw, int and scaled arguments) and single / double float elements with bounds and values at, next "
          "to and beyond every limit including NaN and infinities, with the values they report; writes at and next to both bounds of fields of every "
          "width from 0 to 64 bits, raw and scaled")

CHECKS = {"P16": check_p16, "P17": check_p17}

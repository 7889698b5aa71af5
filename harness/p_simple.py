"""P19, P20 and P21: scans, points, lines and images through the Simple API."""
import math
import random
import struct

from core import Cmd, build, pct_out

DMAX, FMAX = float.fromhex("0x1.fffffffffffffp+1023"), float.fromhex("0x1.fffffep+127")
COORD = ["x", "y", "z", "r"]
ANGLE = ["az", "el"]
FIELDS = COORD + ANGLE + ["cinv", "sinv", "in", "ininv", "red", "green", "blue", "colinv", "row", "col", "ri", "rc",
                          "ts", "tsinv", "nx", "ny", "nz"]
TEXTS = ["name", "description", "sensorVendor", "sensorModel", "sensorSerialNumber", "sensorHardwareVersion",
         "sensorSoftwareVersion", "sensorFirmwareVersion"]
NUMBERS = ["il.min", "il.max"] + [g + m for g in ("range", "angle", "time") for m in (".min", ".max")]
INTS = ["ib.rowMin", "ib.rowMax", "ib.colMin", "ib.colMax", "ib.retMin", "ib.retMax", "grp.groups", "grp.count", "pointCount"]


def hexd(x):
    """as the driver prints a number"""
    if x == 0:
        return "0x0p+0"
    m, e = x.hex().split("p")
    if "." in m:
        m = m.rstrip("0").rstrip(".")
    return m + "p" + e


def single(x):
    if abs(x) >= FMAX:
        return math.copysign(FMAX, x)
    return struct.unpack("f", struct.pack("f", x))[0]


def ulp32(x):
    x = abs(x)
    return 2.0 ** -149 if x < 2.0 ** -126 else 2.0 ** (math.frexp(x)[1] - 24)


def clamp(n):
    return max(-(1 << 30), min(1 << 30, n))


def milli(dist, scale):
    if scale == 0:
        return 0
    if not dist < 1e300:
        return 1 << 30
    return clamp(int(math.floor(max(0.0, dist) / abs(scale) * 1000)))


# ---------------------------------------------------------------------------------------- headers

def text(r):
    k = r.random()
    if k < 0.5:
        return "".join(r.choice("abcXYZ 0189-_.{}") for _ in range(r.randint(1, 12)))
    if k < 0.7:
        return "".join(r.choice(["<", ">", "&", "]]>", "\"", "'", "a", "&amp;", "]]", "%", ","]) for _ in range(r.randint(1, 6)))
    if k < 0.85:
        return "".join(chr(r.choice([0xe4, 0x20ac, 0x4e2d, 0x10348, 0x3b1, 65])) for _ in range(r.randint(1, 5)))
    if k < 0.95:
        return r.choice(["0", " ", " a ", "-", "true", "x" * 300, "a\nb", "\t"])
    return "y" * r.choice([1000, 5000])


def number(r):
    return r.choice([0.0, 1.0, -1.0, 0.1, -2.5, 1e-300, 123456.789, -1e10, r.uniform(-100, 100), r.uniform(-1e6, 1e6), math.pi, DMAX, -DMAX,
                     5e-324, r.gauss(0, 1)])


def date(r, h, k):
    h[k + ".v"] = hexd(r.choice([0.0, 1e-3, 1.0, 987654321.125, r.uniform(1, 1e9), 1e15]))
    h[k + ".a"] = r.choice([0, 1, 1])


def pose(r, h):
    for k in ("rw", "rx", "ry", "rz", "tx", "ty", "tz"):
        if r.random() < 0.5:
            h["pose." + k] = hexd(number(r))


def description(r, rich):
    """texts, sensor, weather, times, pose, bounds: anything that does not concern the points"""
    h = {}
    on = lambda: r.random() < rich
    for k in TEXTS:
        if on():
            h[k] = text(r)
    if r.random() < 0.7:
        h["guid"] = "{%032x}" % r.getrandbits(128) if r.random() < 0.8 else text(r)
    if on():
        h["originalGuids"] = ",".join(text(r).replace(",", "") or "-" for _ in range(r.choice([1, 2, 3, 4, 11, 13])))
    for k in ("temperature", "relativeHumidity", "atmosphericPressure"):
        if on():
            h[k] = hexd(single(r.choice([0.0, 20.5, -40.0, 1e-30, r.uniform(-300, 1e5), 3e38])))
    for k in ("start", "end"):
        if on():
            date(r, h, k)
    if on():
        pose(r, h)
    wide = r.random() < 0.1
    for p in ("row", "col", "ret"):
        if on():
            top = 1 << (62 if wide else 20)
            a, b = sorted((r.choice([0, 0, 1, r.randint(-top, top)]), r.choice([0, 1, 9, r.randint(-top, top)])))
            if r.random() < 0.8:
                h["ib.%sMin" % p] = a
            if r.random() < 0.8 or a > 0:
                h["ib.%sMax" % p] = b
    for keys in (["cb.xMin", "cb.xMax", "cb.yMin", "cb.yMax", "cb.zMin", "cb.zMax"], ["sb.rMin", "sb.rMax", "sb.eMin", "sb.eMax", "sb.aStart", "sb.aEnd"]):
        if on():
            some = r.random() < 0.5
            for k in keys:
                if not some or r.random() < 0.4:
                    h[k] = hexd(number(r))
    return h, wide


SCALES = [0.001, 2.0 ** -10, 0.25, 1.0, 3.0, 1e-6, 0.1]


def ranges(r, what, h, data, fields, bad, zero, kind):
    """node type and limits of coordinates, angles or times; bounds of the data to write"""
    types = ["float", "double", "scaled", "scaled"] + (["int"] if what == "time" else [])
    t = "scaled" if bad == "scale" else r.choice(types)
    h[what + ".type"] = t
    big = {"range": 1000.0, "angle": 3.0, "time": 1e6}[what]
    if bad == "type" and what != "time":
        h[what + ".type"] = "int"
        t = "int"
    scale = 1.0
    if t == "scaled":
        scale = r.choice(SCALES)
        h[what + ".scale"] = hexd(0.0 if bad == "scale" else scale)
    k = r.random()
    if k < 0.4:
        lo, hi = r.choice([(-big, big), (0.0, big), (big / 2, big), (-big, -big / 4)])
    else:
        a, b = r.randint(-int(big * 8), int(big * 8)) / 8, r.randint(-int(big * 8), int(big * 8)) / 8
        lo, hi = min(a, b), max(a, b)
        if not zero and r.random() < 0.7:
            lo, hi = min(lo, 0.0), max(hi, 0.0)
        if t != "float" and (kind == "double" or what == "time") and r.random() < 0.3:
            lo, hi = lo * 1.1, hi * 1.1
    if t == "int":
        lo, hi = float(math.floor(lo)), float(math.ceil(hi))
    if k >= 0.4:
        h[what + ".min"], h[what + ".max"] = hexd(lo), hexd(hi)
    if t == "scaled" and lo == hi:
        hi = lo
    for f in fields:
        a, b = sorted((r.uniform(lo, hi), r.uniform(lo, hi)))
        if r.random() < 0.6:
            a, b = lo, hi
        if t == "int":
            a, b = math.ceil(a), math.floor(b)
            if a > b:
                a = b = lo
            data[f] = ("grid", float(a), 1.0, int(b - a))
        elif t == "scaled" and r.random() < 0.3:
            q = scale * r.choice([1, 0.5, 0.25])
            s = max(0, min(100000, int((hi - a) / q) - 1))
            data[f] = ("grid", a, q, s) if s > 0 and a + q * s <= b else ("even", a, b)
        else:
            data[f] = ("even", a, b)


def points(r, h, n, dense, kind, bad=None, zero=True):
    """point fields of a header and bounds for their values"""
    data = {}
    used = [f for f in FIELDS if r.random() < dense] or [r.choice(FIELDS)]
    if bad:
        used = list(set(used + [r.choice(COORD), r.choice(ANGLE)]))
    for f in used:
        h["f." + f] = 1
    which = r.choice(["range", "angle", "int", "time"]) if bad == "scale" else r.choice(["range", "angle"]) if bad == "type" else ""
    if set(used) & set(COORD) or r.random() < 0.2:
        ranges(r, "range", h, data, [f for f in used if f in COORD], bad if which == "range" else None, zero, kind)
    else:
        h["range.type"] = r.choice(["float", "double", "scaled"])
    if set(used) & set(ANGLE) or r.random() < 0.2:
        ranges(r, "angle", h, data, [f for f in used if f in ANGLE], bad if which == "angle" else None, zero, kind)
    else:
        h["angle.type"] = r.choice(["float", "double", "scaled"])
    if which == "time":
        used = list(set(used + ["ts"]))
        h["f.ts"] = 1
    if "ts" in used:
        ranges(r, "time", h, data, ["ts"], None, zero, kind)
        if which == "time":
            h["time.type"], h["time.scale"] = "scaled", hexd(0.0)
    else:
        h["time.type"] = r.choice(["int", "float", "double", "scaled"])
    # intensity
    t = r.choice(["int", "float", "double", "scaled"])
    h["int.type"] = t
    scale = r.choice(SCALES)
    if t == "scaled":
        h["int.scale"] = hexd(scale)
    lo, hi = r.choice([(0, 0), (0, 1), (0, 255), (0, 4096), (-100, 100), (10, 20), (-20, -10), (-5, 0), (1, 1)])
    if t != "int" and r.random() < 0.4:
        lo, hi = lo * 1.25, hi * 1.375
        lo, hi = min(lo, hi), max(lo, hi)
    if not zero:
        lo, hi = min(lo, 0), max(hi, 0)
    if (lo, hi) != (0, 0):
        h["il.min"], h["il.max"] = hexd(float(lo)), hexd(float(hi))
    if which == "int":
        h["f.in"] = r.choice([0, 1])
        h["int.type"], h["int.scale"], h["il.max"] = "scaled", hexd(0.0), hexd(255.0)
        h["il.min"] = hexd(0.0)
        used = [f for f in used if f != "in"] + (["in"] if h["f.in"] else [])
    if "in" in used:
        data["in"] = ("grid", float(lo), 1.0, int(hi - lo)) if t == "int" else ("even", float(lo), float(hi))
    # colours
    for f, k in (("red", "r"), ("green", "g"), ("blue", "b")):
        lo, hi = r.choice([(0, 0), (0, 255), (0, 65535), (0, 1), (5, 5), (100, 200), (0, 1023)])
        if not zero:
            lo = 0
        if f in used or r.random() < 0.3:
            h["cl.%sMin" % k], h["cl.%sMax" % k] = hexd(float(lo)), hexd(float(hi))
            data[f] = ("grid", float(lo), 1.0, hi - lo)
        else:
            data[f] = ("grid", 0.0, 1.0, 0)
    for f, k in (("row", "rowMax"), ("col", "colMax")):
        top = r.choice([0, 1, 255, 1000, (1 << 31) - 1, (1 << 32) - 1])
        if f in used and r.random() < 0.8:
            h[k] = top
        else:
            top = (1 << 32) - 1
        data[f] = ("grid", 0.0, 1.0, min(top, (1 << 31) - 1))
    top = 255
    if r.random() < 0.8:
        top = r.choice([0, 1, 3, 127, 200, 255])
        h["retMax"] = top
    for f in ("ri", "rc"):
        data[f] = ("grid", 0.0, 1.0, min(top, 127))
    for f in ("cinv", "sinv"):
        data[f] = ("grid", 0.0, 1.0, 2)
    for f in ("ininv", "colinv", "tsinv"):
        data[f] = ("grid", 0.0, 1.0, 1)
    for f in ("nx", "ny", "nz"):
        data[f] = ("even", -1.0, 1.0)
    h["pointCount"] = n
    return used, {f: data[f] for f in used if f in data}


def lines(r, h, n):
    """a line grouping for n points"""
    g = r.randint(1, 6)
    h["grp.id"] = r.choice(["rowIndex", "columnIndex", "columnIndex", "other"])
    h["grp.groups"] = g
    h["grp.count"] = r.choice([n, n, 1, 1000, 0])
    return g


# --------------------------------------------------------------------------------------- programs

def scans(rng, prof):
    seed = rng.randrange(1 << 60)

    def make(wd):
        r = random.Random(seed)
        path = "%s/s%x.e57" % (wd, seed)
        cmds = [Cmd("sh.set", h="fresh"), Cmd("sh.get", {"op": "@fresh"}, h="fresh")]
        opts = {}
        if r.random() < 0.6:
            opts["guid"] = text(r)
        if r.random() < 0.5:
            opts["meta"] = text(r)
        cmds.append(Cmd("sw.open", {"op": "open", "guid": pct_out(opts.get("guid", "")), "meta": pct_out(opts.get("meta", ""))}, w="w", path=path, **opts))
        if r.random() < 0.3:
            v, at = r.choice([0.0, 1.5, 1e9, -3.0]), r.choice([None, 0, 1])
            cmds.append(Cmd("sw.creation", {"op": "creation", "value": hexd(v), "atomic": at or 0}, w="w", value=hexd(v),
                            **({} if at is None else {"atomic": at})))
        infos, pics = [], []
        last = False
        for k in range(prof["nscans"](r)):
            if r.random() < prof.get("images", 0.1):
                put_image(r, SMALL, cmds, pics)
            bad = r.choice(["type", "scale"]) if r.random() < prof["bad"] else None
            n = prof["n"](r)
            h, wide = description(r, r.choice(prof["rich"]))
            kind = r.choice(["float", "double"])
            used, data = points(r, h, n, r.choice(prof["dense"]), kind, bad)
            grp = lines(r, h, n) if r.random() < prof["lines"] and n > 0 else 0
            hn, pn = "h%d" % k, "p%d" % k
            cmds.append(Cmd("sh.set", h=hn, **h))
            how = r.choice(["auto", "auto", "user", "user", "blocks", "head"])
            if bad:
                how = r.choice(["auto", "user", "blocks", "head"]) if bad == "type" else r.choice(["user", "blocks", "head"])
            info = dict(h=hn, p=pn, used=used, n=n, wide=wide, grp=grp)
            if how == "auto":
                cmds.append(Cmd("sh.get", {"op": "@h0"}, h=hn))
                cmds.append(Cmd("sp.new", {"op": "@alloc", "pass": bool(bad)}, h=hn, p=pn, kind=kind, auto=1))
                if bad:
                    continue
            else:
                miss = how == "user" and r.random() < prof["miss"]
                bufs = [f for f in used if not miss or r.random() < 0.7]
                if r.random() < 0.2:
                    bufs += [f for f in FIELDS if f not in bufs and r.random() < 0.2]
                bufs = bufs or used[:1]
                cmds.append(Cmd("sp.new", h=hn, p=pn, kind=kind, fields=",".join(bufs)))
            for f in used if n else []:
                d = data.get(f, ("grid", 0.0, 1.0, 0))
                if how == "user" and f not in bufs:
                    continue
                if d[0] == "grid":
                    a = dict(lo=hexd(d[1]), step=hexd(d[2]), steps=d[3]) if d[3] > 0 else dict(lo=hexd(d[1]), hi=hexd(d[1]))
                else:
                    a = dict(lo=hexd(d[1]), hi=hexd(d[2]))
                cmds.append(Cmd("sp.fill", {"op": "@fill"}, p=pn, field=f, seed=r.getrandbits(40), **a))
            cmds.append(Cmd("sh.get", {"op": "@h0"}, h=hn))
            if how in ("auto", "user"):
                bl = sorted(set(used) if how == "auto" else set(bufs))
                cmds.append(Cmd("sw.scan", {"op": "@scan", "bufs": bl, "n": n, "p": pn}, w="w", h=hn, p=pn))
                lost = how == "user" and not set(used) <= set(bufs)
                info["n"] = n
            else:
                cmds.append(Cmd("sw.head", {"op": "@head"}, w="w", h=hn))
                lost = False
                info["n"] = 0
            cmds.append(Cmd("sh.get", {"op": "@h1"}, h=hn))
            if bad:
                continue
            if lost:
                last = True
                break
            i = len(infos)
            info["i"] = i
            if how == "blocks" and n > 0:
                blocks, left = [], n
                top = r.choice([1, 7, 100, n])
                if n / top > 300:
                    top = n // 100 + 1
                while left > 0:
                    b = min(left, r.randint(0, top) or 1)
                    blocks.append(b)
                    left -= b
                if r.random() < 0.2:
                    blocks.insert(r.randint(0, len(blocks)), 0)
                cmds.append(Cmd("sw.blocks", {"op": "points", "i": i, "bufs": used, "n": n}, w="w", i=i, p=pn, fields=",".join(used),
                                blocks=",".join(map(str, blocks)), cap=max(blocks) + r.choice([0, 0, 5])))
                info["n"] = n
            infos.append(info)
            if (grp and r.random() < 0.8) or r.random() < 0.05:
                m = r.randint(1, 2 * grp) if grp else 2
                wrong = r.random() < 0.05 and grp
                ids = [r.randint(0, max(0, grp - 1)) for _ in range(m)]
                starts = [r.randint(0, max(0, n - 1)) for _ in range(m)]
                counts = [r.randint(0, h.get("grp.count", 0)) for _ in range(m)]
                if wrong:
                    q = r.choice([ids, starts, counts])
                    q[r.randrange(m)] = 1 << 20
                at = i if grp or r.random() < 0.5 else r.choice([-1, 99])
                cmds.append(Cmd("sw.groups", {"op": "@wgroups", "i": at, "ids": ids, "starts": starts, "counts": counts, "h": hn}, w="w", i=at,
                                ids=",".join(map(str, ids)), starts=",".join(map(str, starts)), counts=",".join(map(str, counts))))
                if wrong:
                    last = True
                    break
                info["m"] = m if grp else 0
        if last:
            cmds.append(Cmd("sw.drop", w="w"))
            cmds.append(Cmd("file.rm", path=path))
            return cmds
        if r.random() < prof.get("images", 0.1):
            put_image(r, SMALL, cmds, pics)
        if r.random() < 0.5:
            cmds.append(Cmd("sw.isOpen", {"op": "isopen", "want": "write"}, w="w"))
        cmds.append(Cmd("sw.close", {"op": "close"}, w="w"))
        if r.random() < 0.3:
            cmds.append(Cmd("sw.isOpen", {"op": "isopen", "want": "write"}, w="w"))
            cmds.append(Cmd("sw.close", {"op": "close"}, w="w"))
        cmds.append(Cmd("sw.drop", w="w"))
        cmds.append(Cmd("sr.open", {"op": "ropen"}, s="s", path=path, policy=r.choice([0, 25, 50, 100])))
        cmds.append(Cmd("sr.root", {"op": "root"}, s="s"))
        late = r.random() < 0.5
        if pics and not late:
            get_images(r, cmds, pics)
        order = list(range(len(infos))) + [r.choice([-1, len(infos), 1 << 40])]
        r.shuffle(order)
        for i in order:
            info = infos[i] if 0 <= i < len(infos) else None
            junk = {"junk": r.choice(infos)["h"]} if infos and r.random() < 0.7 else {}
            cmds.append(Cmd("sr.head", {"op": "@rhead", "i": clamp(i), "ref": info and info["h"]}, s="s", i=i, **junk))
            if not info:
                cmds.append(Cmd("sr.sizes", {"op": "@sizes", "i": clamp(i), "ref": None}, s="s", i=i))
                cmds.append(Cmd("sr.groups", {"op": "rgroups", "i": clamp(i), "n": 2, "omit": 0}, s="s", i=i, n=2))
                continue
            if not info["wide"]:
                cmds.append(Cmd("sr.sizes", {"op": "@sizes", "i": i, "ref": info["h"]}, s="s", i=i))
            if not info["grp"] or info.get("m"):
                g, om = r.choice([1, 3, info.get("m") or 1, (info.get("m") or 1) + 2]), r.choice([0, 0, 0, 1, 2, 3])
                cmds.append(Cmd("sr.groups", {"op": "rgroups", "i": i, "n": g, "omit": om}, s="s", i=i, n=g, omit=["", "id", "start", "count"][om]))
            if info["n"] > 0:
                for _ in range(r.choice(prof["reads"])):
                    want = [f for f in info["used"] if r.random() < r.choice([0.3, 1.0, 1.0])] or info["used"][:1]
                    extra = [f for f in FIELDS if f not in info["used"] and r.random() < 0.05]
                    kind = r.choice(["float", "double"])
                    block = r.choice([1, 3, 64, info["n"], info["n"], info["n"] + 5, 1000])
                    if info["n"] / block > 1500:
                        block = info["n"] // 100
                    cmds.append(Cmd("sr.points", {"op": "@rpoints", "i": i, "kind": kind, "ref": info["h"], "p": info["p"]}, s="s", i=i, p=info["p"],
                                    fields=",".join(want + extra), kind=kind, block=block))
        if pics and late:
            get_images(r, cmds, pics)
        cmds.append(Cmd("sr.close", {"op": "rclose"}, s="s"))
        if r.random() < 0.3:
            cmds.append(Cmd("sr.isOpen", {"op": "isopen", "want": "read"}, s="s"))
            cmds.append(Cmd("sr.root", {"op": "root"}, s="s"))
            cmds.append(Cmd("sr.head", {"op": "@rhead", "i": 0, "ref": None}, s="s", i=0))
            cmds.append(Cmd("sr.sizes", {"op": "@sizes", "i": 0, "ref": None}, s="s", i=0))
            cmds.append(Cmd("sr.close", {"op": "rclose"}, s="s"))
        cmds.append(Cmd("sr.drop", s="s"))
        cmds.append(Cmd("file.rm", path=path))
        return cmds
    return make


def f(h, k):
    return float.fromhex(h[k])


def post(prog):
    evs, h0, call, head, stat = [], None, None, {}, {}
    for c in prog:
        ev, res = c.ev, {k: v for k, v in c.res.items() if k != "stderr"}
        op = ev["op"] if ev else None
        if ev is None:
            evs.append({"op": "setup", "cmd": c.op, "r": res["r"]})
        elif res["r"] in ("CRASH", "HANG", "SKIPPED") or res["r"].endswith("-IN-RESET"):
            evs.append({"op": "setup", "cmd": c.op, "r": res["r"]})
        elif not op.startswith("@"):
            evs.append({**ev, **res})
        elif op == "@fresh":
            evs.append({"op": "fresh", "v": res["v"]})
        elif op == "@h0":
            h0 = res["v"]
            for e in evs[::-1]:
                if e["op"] == "alloc":
                    e["after"] = h0
                if e["op"] != "setup":
                    break
        elif op == "@alloc":
            evs.append({"op": "alloc", "h": h0, "kind": c.args["kind"], "r": res["r"], "fields": res.get("fields", []), "after": h0})
        elif op == "@fill":
            stat.setdefault(c.args["p"], {})[c.args["field"]] = (float.fromhex(res["min"]), float.fromhex(res["max"])) if "min" in res else (0.0, 0.0)
            evs.append({"op": "setup", "cmd": c.op, "r": res["r"]})
        elif op in ("@scan", "@head", "@image", "@imgall"):
            call = (ev, res)
        elif op == "@h1":
            ev1, res1 = call
            h1 = res["v"]
            e = {k: v for k, v in ev1.items() if k != "p"}
            e.update(res1, op=ev1["op"][1:], h0=h0, h1=h1)
            if e["op"] in ("scan", "head"):
                head[c.args["h"]] = h1
            else:
                e["num"] = {k: int(v) for k, v in h1.items() if k[:3] in ("vis", "pin", "sph", "cyl") and k[4:] in ("jpeg", "png", "mask", "width", "height")}
            if e["op"] == "scan":
                st = stat.get(ev1["p"], {})
                e["admits"] = [g for g, fs in (("range", COORD), ("angle", ANGLE), ("time", ["ts"]))
                               if all(f(h1, g + ".min") <= st[x][0] and st[x][1] <= f(h1, g + ".max") for x in fs if x in st and h1["f." + x] == "1")]
            e.setdefault("i", -1)
            e.setdefault("n", 0)
            evs.append(e)
        elif op == "@wgroups":
            h = head[ev["h"]]
            evs.append({"v": False, **{k: v for k, v in ev.items() if k != "h"}, **res, "op": "wgroups", "num": {k: clamp(int(h[k])) for k in INTS}})
        elif op == "@rhead":
            e = {"op": "rhead", "i": ev["i"], "r": res["r"], "ret": res.get("ret", False), "got": res.get("v", {}), "s": {}, "dev": {}}
            if ev["ref"] and "v" in res:
                h, got = head[ev["ref"]], res["v"]
                for k in NUMBERS:
                    want = f(h, k)
                    sc = f(h, "int.scale" if k[0:2] == "il" else k.split(".")[0] + ".scale")
                    e["s"][k] = hexd(single(want))
                    e["dev"][k] = milli(abs(f(got, k) - want) - 4 * math.ulp(want), sc)
            evs.append(e)
        elif op == "@sizes":
            e = {"i": ev["i"], **res, "op": "sizes", "num": {}}
            for k in ("row", "col", "points", "groups", "count"):
                e[k] = clamp(e.get(k, -7))
            if ev["ref"]:
                e["num"] = {k: clamp(int(head[ev["ref"]][k])) for k in INTS}
            evs.append(e)
        elif op == "@rpoints":
            h, st = head[ev["ref"]], stat.get(ev["p"], {})
            cols = []
            for col in res.get("cols", []):
                x = col["f"]
                sc = f(h, "range.scale" if x in COORD else "angle.scale" if x in ANGLE else "int.scale" if x == "in" else "time.scale" if x == "ts" else "range.scale")
                top = max(map(abs, st[x])) + abs(sc) if x in st else 1.0
                slack = 4 * math.ulp(top)
                if ev["kind"] == "float" and x in COORD + ANGLE:
                    slack += ulp32(top)
                dv = col["dev"]
                dv = math.inf if "nan" in dv else float.fromhex(dv)
                cols.append({"f": x, "n": col["n"], "diff": col["diff"], "diff32": col["diff32"], "milli": milli(dv - slack, sc)})
            evs.append({"op": "rpoints", "i": ev["i"], "kind": ev["kind"], "r": res["r"], "n": clamp(res.get("n", -1)), "cols": cols})
        elif op in ("@rimage",):
            evs.append({"op": "rimage", "i": ev["i"], "r": res["r"], "ret": res.get("ret", False), "got": res.get("v", {})})
        else:
            raise AssertionError(op)
    return evs


HEADERS = dict(nscans=lambda r: r.choice([0, 1, 1, 2, 2, 3, 5]), n=lambda r: r.choice([1, 1, 2, 5, 30]), rich=[0.1, 0.3, 0.5, 0.9], dense=[0.1, 0.3, 0.6, 1.0],
               bad=0.06, miss=0.05, lines=0.3, reads=[0, 0, 1])
POINTS = dict(nscans=lambda r: r.choice([1, 1, 2, 3]), n=lambda r: r.choice([0, 1, 2, 10, 100, 333, 1000, 2500]), rich=[0.0, 0.2], dense=[0.1, 0.25, 0.5, 1.0],
              bad=0.12, miss=0.12, lines=0.5, reads=[1, 2, 3])
MIXED = dict(POINTS, n=lambda r: r.choice([1, 10, 100]), images=0.9, bad=0.03, miss=0.02, reads=[1])
MANY = dict(HEADERS, nscans=lambda r: r.randint(11, 14), n=lambda r: r.choice([1, 2, 5]), dense=[0.1, 0.2], rich=[0.1, 0.2], bad=0, miss=0, images=0.3)
LARGE = dict(POINTS, n=lambda r: r.choice([20000, 60000]), nscans=lambda r: 1, bad=0, miss=0, reads=[2])


def p19(ck):
    exe = build("asan")
    ck.model("MC_Simple", "MC_Simple_deep.cfg" if ck.thorough else None)
    rng = ck.rng
    ck.conform(exe, "Trace_Simple", [scans(rng, HEADERS) for _ in range(8000 if ck.thorough else 1400)], "headers", post=post)
    ck.conform(exe, "Trace_Simple", [scans(rng, MANY) for _ in range(400 if ck.thorough else 40)], "many scans", post=post)
    return ck.finish("model_checking", RULE)


def p20(ck):
    exe = build("asan")
    ck.model("MC_Simple", "MC_Simple_deep.cfg" if ck.thorough else None)
    rng = ck.rng
    ck.conform(exe, "Trace_Simple", [scans(rng, POINTS) for _ in range(8000 if ck.thorough else 1300)], "points", post=post)
    ck.conform(exe, "Trace_Simple", [scans(rng, LARGE) for _ in range(400 if ck.thorough else 40)], "large scans", post=post)
    return ck.finish("model_checking", RULE)


# ----------------------------------------------------------------------------------------- images

PROJ = {"": 0, "vis": 1, "pin": 2, "sph": 3, "cyl": 4}
REP = {"vis": [], "pin": ["focal", "pw", "ph", "px", "py"], "sph": ["pw", "ph"], "cyl": ["pw", "ph", "radius", "py"]}
DIST = ["k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2", "cx", "cy", "fx", "fy"]


def image(r, prof):
    h = {}
    for k in ("name", "description", "associatedData3DGuid", "sensorVendor", "sensorModel", "sensorSerialNumber"):
        if r.random() < 0.4:
            h[k] = text(r)
    if r.random() < 0.7:
        h["guid"] = "{%032x}" % r.getrandbits(128)
    if r.random() < 0.4:
        date(r, h, "time")
    if r.random() < 0.4:
        pose(r, h)
    rep = r.choice(["", "vis", "pin", "sph", "cyl", "vis", "pin", "sph", "cyl"])
    size = {}
    if rep:
        t = r.choice([1, 2])
        size[t] = prof["size"](r)
        h["%s.%s" % (rep, "jpeg" if t == 1 else "png")] = size[t]
        if r.random() < 0.4:
            size[3] = prof["size"](r)
            h[rep + ".mask"] = size[3]
        h[rep + ".width"], h[rep + ".height"] = r.choice([0, 1, 640, 65535, 2000000000]), r.choice([0, 1, 480, 123456789])
        for k in REP[rep]:
            if r.random() < 0.8:
                h["%s.%s" % (rep, k)] = hexd(number(r))
    if r.random() < 0.4:
        h["dist"] = 1
        h["dist.number"] = r.choice([0, 1, 7, 2147483647])
        if r.random() < 0.7:
            h["dist.type"] = text(r)
        for k in DIST:
            if r.random() < 0.6:
                h["dist." + k] = hexd(number(r))
        h["dist.height"], h["dist.width"] = r.choice([0, 1, 1080, 100000]), r.choice([0, 1, 1920, 77777])
    return h, rep, size


def piece(r, n):
    """a part of n bytes"""
    k = r.random()
    if k < 0.3:
        return 0, n
    a = r.randint(0, n)
    b = r.randint(a, n)
    return a, b - a


def place(r, i, n):
    """content that may not exist"""
    return dict(i=r.choice([i, i, -1, n, 1 << 40]), type=r.randint(0, 3), proj=r.randint(0, 4))


def put_image(r, prof, cmds, infos):
    h, rep, size = image(r, prof)
    i = len(infos)
    mn = "m%d" % i
    cmds.append(Cmd("im.set", m=mn, **h))
    cmds.append(Cmd("im.get", {"op": "@h0"}, m=mn))
    todo = []
    if r.random() < 0.3:
        t, pr = (r.choice(list(size)), PROJ[rep]) if size and r.random() < 0.8 else (r.randint(0, 3), r.randint(0, 4))
        s, n = piece(r, size[t]) if PROJ[rep] == pr and t in size else (0, r.choice([0, 5]))
        a = dict(type=t, proj=pr, start=s, count=n, v=r.randint(1, 230))
        cmds.append(Cmd("sw.imgall", {"op": "@imgall", **a}, w="w", m=mn, **a))
    else:
        cmds.append(Cmd("sw.image", {"op": "@image"}, w="w", m=mn))
    cmds.append(Cmd("im.get", {"op": "@h1"}, m=mn))
    infos.append((rep, size))
    for t, n in size.items():
        style = r.random()
        if style < 0.4:
            cut = sorted(r.randint(0, n) for _ in range(r.randint(0, 5)))
            ps = [(a, b - a) for a, b in zip([0] + cut, cut + [n])]
            if r.random() < 0.3:
                r.shuffle(ps)
        elif style < 0.8:
            ps = [piece(r, n) for _ in range(r.randint(1, 4))]
        else:
            ps = [] if r.random() < 0.3 else [(0, n)]
        todo += [dict(i=i, type=t, proj=PROJ[rep], start=s, count=c) for s, c in ps]
    for _ in range(r.choice([0, 0, 1, 2])):
        todo.append(dict(place(r, i, len(infos)), start=r.choice([0, 0, 1]), count=r.choice([0, 1, 10])))
    if size and r.random() < 0.15:
        t = r.choice(list(size))
        todo.append(dict(i=i, type=t, proj=PROJ[rep], start=r.choice([-1, 0, 1, size[t]]), count=r.choice([1, size[t], size[t] + 1])))
    # a later image does not disturb an earlier one
    if r.random() < 0.3:
        j = r.randrange(len(infos))
        for t, n in infos[j][1].items():
            s, c = piece(r, n)
            todo.append(dict(i=j, type=t, proj=PROJ[infos[j][0]], start=s, count=c))
    for a in todo:
        v = r.randint(1, 230)
        cmds.append(Cmd("sw.imgdata", {"op": "imgdata", **dict(a, i=clamp(a["i"])), "v": v}, w="w", v=v, **a))


def get_images(r, cmds, infos):
    order = list(range(len(infos))) + [r.choice([-1, len(infos), 1 << 40])]
    r.shuffle(order)
    for i in order:
        cmds.append(Cmd("sr.image", {"op": "@rimage", "i": clamp(i)}, s="s", i=i))
        cmds.append(Cmd("sr.imgsizes", {"op": "rimgsizes", "i": clamp(i)}, s="s", i=i))
        todo = []
        if 0 <= i < len(infos):
            rep, size = infos[i]
            for t, n in size.items():
                todo.append(dict(i=i, type=t, proj=PROJ[rep], start=0, count=n))
                for _ in range(r.choice([0, 1, 3])):
                    s, c = piece(r, n)
                    todo.append(dict(i=i, type=t, proj=PROJ[rep], start=s, count=c))
                if r.random() < 0.2:
                    todo.append(dict(i=i, type=t, proj=PROJ[rep], start=r.choice([-1, 0, 1, n]), count=r.choice([1, n, n + 1])))
        for _ in range(r.choice([0, 1, 2])):
            todo.append(dict(place(r, i, len(infos)), start=r.choice([0, 0, 1]), count=r.choice([0, 1, 10])))
        r.shuffle(todo)
        for a in todo:
            cmds.append(Cmd("sr.imgdata", {"op": "rimgdata", **dict(a, i=clamp(a["i"]))}, s="s", **a))


def images(rng, prof):
    seed = rng.randrange(1 << 60)

    def make(wd):
        r = random.Random(seed)
        path = "%s/i%x.e57" % (wd, seed)
        cmds = [Cmd("sw.open", {"op": "open", "guid": "g", "meta": ""}, w="w", path=path, guid="g")]
        infos = []
        for k in range(prof["nimages"](r)):
            put_image(r, prof, cmds, infos)
        cmds.append(Cmd("sw.close", {"op": "close"}, w="w"))
        cmds.append(Cmd("sw.drop", w="w"))
        cmds.append(Cmd("sr.open", {"op": "ropen"}, s="s", path=path, policy=r.choice([0, 25, 50, 100])))
        cmds.append(Cmd("sr.root", {"op": "root"}, s="s"))
        get_images(r, cmds, infos)
        cmds.append(Cmd("sr.close", {"op": "rclose"}, s="s"))
        cmds.append(Cmd("sr.drop", s="s"))
        cmds.append(Cmd("file.rm", path=path))
        return cmds
    return make


SMALL = dict(nimages=lambda r: r.choice([0, 1, 1, 2, 3]), size=lambda r: r.choice([1, 2, 10, 100, 300]))
LOTS = dict(SMALL, nimages=lambda r: r.randint(11, 14))
BIG = dict(nimages=lambda r: r.choice([1, 2]), size=lambda r: r.choice([1000, 1020, 1021, 5000, 100000]))


def p21(ck):
    exe = build("asan")
    ck.model("MC_Simple", "MC_Simple_deep.cfg" if ck.thorough else None)
    rng = ck.rng
    ck.conform(exe, "Trace_Simple", [images(rng, SMALL) for _ in range(8000 if ck.thorough else 1500)], "images", post=post)
    ck.conform(exe, "Trace_Simple", [images(rng, BIG) for _ in range(3000 if ck.thorough else 400)], "larger images", post=post)
    ck.conform(exe, "Trace_Simple", [images(rng, LOTS) for _ in range(400 if ck.thorough else 40)], "many images", post=post)
    ck.conform(exe, "Trace_Simple", [scans(rng, MIXED) for _ in range(2000 if ck.thorough else 300)], "images and scans", post=post)
    return ck.finish("model_checking", RULE)


RULE = ("every recorded call of the Simple API is a step of Simple.tla: headers, points, lines and images that are read are those "
        "written before, refused calls give the errors of the rules that are broken and leave nothing behind")
CHECKS = {"P19": p19, "P20": p20, "P21": p21}

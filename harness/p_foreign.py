"""P22: files of other writers, read with the Reader of the Simple API."""
import math
import random
import struct

import e57file as e5
from core import Cmd, build, pct_out
from p_layout import assemble, cut
from p_simple import DMAX, FMAX, FIELDS, PROJ, TEXTS, clamp, hexd, number, single, text

I64MIN, I64MAX = -(1 << 63), (1 << 63) - 1
FIELD = {"x": "cartesianX", "y": "cartesianY", "z": "cartesianZ", "cinv": "cartesianInvalidState", "r": "sphericalRange",
         "az": "sphericalAzimuth", "el": "sphericalElevation", "sinv": "sphericalInvalidState", "in": "intensity", "ininv": "isIntensityInvalid",
         "red": "colorRed", "green": "colorGreen", "blue": "colorBlue", "colinv": "isColorInvalid", "row": "rowIndex", "col": "columnIndex",
         "ri": "returnIndex", "rc": "returnCount", "ts": "timeStamp", "tsinv": "isTimeStampInvalid",
         "nx": "nor:normalX", "ny": "nor:normalY", "nz": "nor:normalZ"}
REPS = {"vis": "visualReferenceRepresentation", "pin": "pinholeRepresentation", "sph": "sphericalRepresentation", "cyl": "cylindricalRepresentation"}
MEMBERS = {"vis": [], "pin": ["focalLength", "pixelWidth", "pixelHeight", "principalPointX", "principalPointY"], "sph": ["pixelWidth", "pixelHeight"],
           "cyl": ["pixelWidth", "pixelHeight", "radius", "principalPointY"]}
TYPES = {"jpegImage": 1, "pngImage": 2, "imageMask": 3}
NAMESPACES = {"nor": "http://www.libe57.org/E57_EXT_surface_normals.txt", "dist": "http://www.libe57.org/E57_LEICA_Camera_Distortion.txt",
              "ext": "http://example.com/ext"}


class Node:
    """an element of the file: attributes, text and children; paths of interest are recorded while it is built"""

    def __init__(self, name, type, kids=(), attrs=None, body=None, ordered=False, where=None):
        self.name, self.type, self.kids, self.attrs, self.body, self.ordered, self.where = name, type, list(kids), attrs or [], body, ordered, where

    def xml(self, r, pos, extras):
        attrs = [("type", self.type)] + list(self.attrs)
        if self.where is not None:
            attrs.append(("fileOffset", pos[self.where]))
        if r.random() < 0.3:
            r.shuffle(attrs)
        a = "".join(" %s=%s%s%s" % (k, q, v, q) for k, v in attrs for q in [r.choice("\"\"'")])
        kids = list(self.kids)
        if self.type == "Structure" and not self.ordered:
            r.shuffle(kids)
            while extras and r.random() < extras:
                kids.insert(r.randint(0, len(kids)), r.choice([
                    Node("ext:e%d" % r.getrandbits(40), "Integer", body="3"), Node("ext:e%d" % r.getrandbits(40), "String", body="x"),
                    Node("ext:e%d" % r.getrandbits(40), "Structure", [Node("name", "String", body="no"), Node("guid", "Integer", body="1")])]))
        sep = r.choice(["", "\n", "  "]) if kids else ""
        inner = sep.join(k.xml(r, pos, extras) for k in kids) if kids else self.body or ""
        if not inner and r.random() < 0.7:
            return "<%s%s/>" % (self.name, a)
        return "<%s%s>%s%s%s</%s>" % (self.name, a, sep, inner, sep, self.name)


def escape(r, s):
    if r.random() < 0.5:
        return "<![CDATA[" + s.replace("]]>", "]]]]><![CDATA[>") + "]]>"
    return "".join("&#%d;" % ord(c) if c in "<>&\n\t" or r.random() < 0.02 else c for c in s)


def string(r, name, s):
    return Node(name, "String", body=escape(r, s) if s else r.choice(["", "<![CDATA[]]>"])), {"v": pct_out(s)}


def integer(r, name, n):
    a = []
    if r.random() < 0.3:
        a.append(("minimum", r.choice([n, n - 5, I64MIN])))
    if r.random() < 0.3:
        a.append(("maximum", r.choice([n, n + 5, I64MAX])))
    # the default value of an element is 0
    body = "" if n == 0 and r.random() < 0.3 else "%d" % n
    return Node(name, "Integer", attrs=a, body=body), {"v": "%d" % n, "n": clamp(n)}


def floating(r, name, x, one=None):
    """one: whether it may be stored in single precision"""
    a = []
    if one if one is not None else r.random() < 0.2:
        x = single(x)
        a.append(("precision", "single"))
    elif r.random() < 0.2:
        a.append(("precision", "double"))
    if r.random() < 0.1:
        big = FMAX if a and a[0][1] == "single" else DMAX
        a += [("minimum", repr(max(-big, x - abs(x)))), ("maximum", repr(min(big, x + abs(x))))]
    body = "" if x == 0 and r.random() < 0.3 else r.choice([repr(x), "%.17e" % x, "%.17g" % x])
    return Node(name, "Float", attrs=a, body=body), {"v": hexd(x), "s": hexd(single(x))}


SCALES = [1.0, 0.5, 0.25, 2.0 ** -10, 3.0, 8.0]


def scaled(r, name, x=None):
    sc, off, raw = r.choice(SCALES), r.choice([0.0, 0.0, 1.0, -2.5, 100.25]), r.choice([0, 1, -1, r.randint(-5000, 5000)])
    a = [] if sc == 1.0 and r.random() < 0.5 else [("scale", repr(sc))]
    a += [] if off == 0.0 and r.random() < 0.5 else [("offset", repr(off))]
    if r.random() < 0.4:
        a += [("minimum", raw - 7), ("maximum", raw + 7)]
    v = raw * sc + off
    return Node(name, "ScaledInteger", attrs=a, body="%d" % raw), {"v": hexd(v), "s": hexd(single(v))}


def stored(r, types, name):
    t = r.choice(types)
    if t == "ScaledInteger":
        return scaled(r, name)
    if t == "Integer":
        n, e = integer(r, name, r.choice([0, 0, 1, 255, r.randint(-1000, 70000)]))
        return n, {"v": hexd(float(int(e["v"])))}
    return floating(r, name, r.choice([0.0, 0.0, 1.0, number(r), number(r)]))


class Elements:
    def __init__(self, r, rich):
        self.r, self.rich, self.el = r, rich, {}

    def on(self, p=None):
        return self.r.random() < (self.rich if p is None else p)

    def put(self, path, made):
        node, e = made
        self.el[path] = e
        return node

    def struct(self, name, path, makers):
        """makers: {member: function of its name}"""
        return Node(name, "Structure", [self.put((path + "/" if path else "") + m, f(m)) for m, f in makers.items()])

    def date(self, name):
        r = self.r
        m = {"dateTimeValue": lambda k: floating(r, k, r.choice([0.0, 1.0, -5.5, 987654321.125, r.uniform(1, 1e9)]), False)}
        if self.on(0.6):
            m["isAtomicClockReferenced"] = lambda k: integer(r, k, r.choice([0, 1]))
        return self.struct(name, name, m)

    def pose(self):
        r = self.r
        f = lambda k: floating(r, k, number(r), False)
        kids = []
        if self.on(0.7):
            kids.append(self.struct("rotation", "pose/rotation", {k: f for k in "wxyz"}))
        if self.on(0.7):
            kids.append(self.struct("translation", "pose/translation", {k: f for k in "xyz"}))
        return Node("pose", "Structure", kids)


def field(r, f, n):
    """prototype element, its description, stream kind and values: raw for the file, numbers for the buffers"""
    name = FIELD[f]
    if f in ("x", "y", "z", "r", "az", "el", "in", "ts"):
        t = r.choice(["Float", "Float", "single", "ScaledInteger", "ScaledInteger"] + (["Integer"] if f not in ("az",) else []))
    elif f in ("red", "green", "blue"):
        t = r.choice(["Integer", "Integer", "Integer", "ScaledInteger", "Float", "single"])
    elif f in ("nx", "ny", "nz"):
        t = r.choice(["Float", "single", "ScaledInteger"])
    else:
        t = "Integer"
    a, e = [], {"t": "Float" if t == "single" else t, "single": t == "single", "scale": hexd(0.0), "max": "0", "free": False}
    if t in ("Integer", "ScaledInteger"):
        sc, off = (r.choice(SCALES), r.choice([0.0, 0.0, -2.5, 16.0])) if t == "ScaledInteger" else (1.0, 0.0)
        unit = 1.0
        if f in ("cinv", "sinv"):
            lo, hi = 0, 2
        elif f in ("ininv", "colinv", "tsinv"):
            lo, hi = 0, 1
        elif f in ("ri", "rc"):
            lo, hi = r.choice([(0, 0), (0, 3), (1, 100), (0, 127)])
        elif f in ("row", "col"):
            lo, hi = r.choice([(0, 0), (0, 999), (5, 70000), (0, (1 << 31) - 1), (-3, 4)])
            if hi < 0:
                hi = 0
        elif f in ("red", "green", "blue"):
            if t == "ScaledInteger":
                sc, off = r.choice([1.0, 2.0, 0.5]), r.choice([0.0, 16.0])
                unit = 2 if sc == 0.5 else 1
            lo, hi = r.choice([(0, 255), (0, 65535 if sc <= 1 else 32000), (16, 235), (0, 1000), (7, 7)])
            if off:
                hi = max(lo, hi - 16)
        else:
            k = r.choice([0, 4, 10, 20, 30])
            lo = r.choice([0, -(1 << k), r.randint(-1000, 1000)])
            hi = lo + r.choice([0, 1, (1 << k) - 1, r.randint(0, 1 << k)])
        top = [lo, hi]
        if t == "ScaledInteger":
            a += [("scale", repr(sc))] if sc != 1.0 or r.random() < 0.5 else []
            a += [("offset", repr(off))] if off != 0.0 or r.random() < 0.5 else []
            e["scale"] = hexd(sc)
        raw = [r.choice([lo, hi, r.randint(lo, hi)]) for _ in range(n)]
        if unit == 2:
            raw = [v - v % 2 if v - v % 2 >= lo else min(hi, v + 1) for v in raw]
            if any(v % 2 for v in raw):
                lo, hi, raw, top = 2, 300, [2 * (i % 100) + 2 for i in range(n)], [2, 300]
        # bounds may be missing
        free = f not in ("row", "col", "ri") and r.random() < 0.15
        if free:
            top = [I64MIN, I64MAX]
            e["free"] = f in ("red", "green", "blue")
        else:
            a += [("minimum", lo), ("maximum", hi)]
        e.update(lo=hexd(float(top[0]) * sc + off), hi=hexd(float(top[1]) * sc + off), max="%d" % top[1])
        nums = [v * sc + off for v in raw]
        return Node(name, t, attrs=a, body="" if lo <= 0 <= hi and r.random() < 0.5 else "%d" % raw[0] if raw else "%d" % lo), e, "int", top[0], top[1], raw, nums
    one = t == "single"
    if f in ("red", "green", "blue"):
        lo, hi = r.choice([(0.0, 255.0), (0.0, 1000.0), (16.0, 65535.0), (0.5, 100.25)])
        nums = [float(r.randint(math.ceil(lo), math.floor(hi))) for _ in range(n)]
    else:
        lo, hi = sorted((r.choice([0.0, -1.0, -1000.5, 0.25]), r.choice([0.5, 1.0, 2000.25, 3.0])))
        nums = [min(hi, max(lo, r.choice([lo, hi, r.uniform(lo, hi)]))) for _ in range(n)]
        nums = [single(x) for x in nums] if one else nums
    if one or r.random() < 0.3:
        a.append(("precision", "single" if one else "double"))
    if r.random() < 0.5:
        a += [("minimum", repr(lo)), ("maximum", repr(hi))]
        body = repr(lo)
    else:
        lo, hi = (-FMAX, FMAX) if one else (-DMAX, DMAX)
        body = ""
    e.update(lo=hexd(lo), hi=hexd(hi))
    pk = ("<f", "<I") if one else ("<d", "<Q")
    raw = [struct.unpack(pk[1], struct.pack(pk[0], x))[0] for x in nums]
    return Node(name, "Float", attrs=a, body=body), e, "f32" if one else "f64", 0, 0, raw, nums


def vector_of(r, b, where, name, fields, n):
    """a CompressedVector of fields [(node, kind, lo, hi, raw)] in the file, after its bytestreams"""
    streams = [e5.encode(k, raw, lo, hi) for _, k, lo, hi, raw in fields]
    npk = max(r.choice([1, 1, 2, 3, 6]), sum(map(len, streams)) // 20000 + 1)
    pieces = [cut(r, s, npk, "any") for s in streams]
    while max(sum(len(p[i]) for p in pieces) for i in range(npk)) > 60000:
        pieces = [cut(r, s, npk, "any") for s in streams]
    packets, index = assemble(r, streams, pieces, r.random() < 0.5)
    b.vector(where, packets, index)
    proto = Node("prototype", "Structure", [f[0] for f in fields], ordered=True)
    return Node(name, "CompressedVector", [proto, Node("codecs", "Vector", attrs=[("allowHeterogeneousChildren", 1)])],
                attrs=[("recordCount", n)], where=where, ordered=True)


def scan(r, b, rich, k, counts):
    E = Elements(r, rich)
    kids = [E.put("guid", string(r, "guid", "{%032x}" % r.getrandbits(128) if r.random() < 0.8 else text(r)))]
    for t in TEXTS:
        if E.on():
            kids.append(E.put(t, string(r, t, r.choice([text(r), text(r), ""]))))
    if E.on():
        ids = [r.choice([text(r).replace(",", ""), ""]) for _ in range(r.choice([0, 1, 2, 5, 12]))]
        kids.append(Node("originalGuids", "Vector", [string(r, "vectorChild", s)[0] for s in ids], attrs=[("allowHeterogeneousChildren", r.choice([0, 1]))]))
        E.el["originalGuids"] = {"v": ",".join(pct_out(s) or "-" for s in ids)}
    for t in ("temperature", "relativeHumidity", "atmosphericPressure"):
        if E.on():
            kids.append(E.put(t, floating(r, t, r.choice([0.0, 20.5, -40.125, 0.1, r.uniform(-300, 1e5)]))))
    for t in ("acquisitionStart", "acquisitionEnd"):
        if E.on():
            kids.append(E.date(t))
    if E.on():
        kids.append(E.pose())
    if E.on():
        m = {}
        for t in ("row", "column", "return"):
            if E.on(0.6):
                lo, hi = sorted((r.choice([0, 0, 1, -4, r.randint(-10000, 10000)]), r.choice([0, 3, r.randint(-10000, 10000)])))
                m[t + "Minimum"] = lambda k, v=lo: integer(r, k, v)
                m[t + "Maximum"] = lambda k, v=hi: integer(r, k, v)
        kids.append(E.struct("indexBounds", "indexBounds", m))
    if E.on():
        t = r.choice(["Float", "ScaledInteger"])
        kids.append(E.struct("cartesianBounds", "cartesianBounds", {a + m: lambda k: stored(r, [t], k) for a in "xyz" for m in ("Minimum", "Maximum")}))
    if E.on():
        m = {}
        for p in (("rangeMinimum", "rangeMaximum"), ("elevationMinimum", "elevationMaximum"), ("azimuthStart", "azimuthEnd")):
            t = r.choice(["Float", "ScaledInteger"])
            for q in p:
                m[q] = lambda k, t=t: stored(r, [t], k)
        kids.append(E.struct("sphericalBounds", "sphericalBounds", m))
    if E.on():
        t = r.choice(["Float", "ScaledInteger", "Integer"])
        kids.append(E.struct("intensityLimits", "intensityLimits", {"intensity" + m: lambda k: stored(r, [t], k) for m in ("Minimum", "Maximum")}))
    if E.on():
        t = r.choice(["Float", "ScaledInteger", "Integer"])
        kids.append(E.struct("colorLimits", "colorLimits", {"color" + c + m: lambda k: stored(r, [t], k) for c in ("Red", "Green", "Blue") for m in ("Minimum", "Maximum")}))
    # points
    n = counts(r)
    dense = r.choice([0.1, 0.3, 0.6, 1.0])
    used = [f for f in FIELDS if r.random() < dense] or [r.choice(FIELDS)]
    r.shuffle(used)
    flds, nums = [], {}
    for f in used:
        node, e, kind, lo, hi, raw, nn = field(r, f, n)
        E.el["points/" + FIELD[f]] = e
        flds.append((node, kind, lo, hi, raw))
        nums[f] = nn
    for i in range(r.choice([0, 0, 1, 2])):
        s = r.random() < 0.5
        x = (Node("ext:f%d" % i, "String"), "str", 0, 0, [bytes(r.randint(65, 90) for _ in range(r.choice([0, 1, 9, 200]))) for _ in range(n)]) if s else \
            (Node("ext:f%d" % i, "Integer", attrs=[("minimum", 0), ("maximum", 7)]), "int", 0, 7, [r.randint(0, 7) for _ in range(n)])
        flds.insert(r.randint(0, len(flds)), x)
    kids.append(vector_of(r, b, "p%d" % k, "points", flds, n))
    E.el["points"] = {"count": str(n), "n": n}
    # lines
    groups = None
    if E.on(0.5):
        m = r.choice([0, 1, 2, 10, 100])
        by = r.choice(["columnIndex", "rowIndex"])
        gk = []
        if E.on(0.3):
            gk.append(Node("ext:grouping", "Structure"))
        if E.on(0.9):
            cols, g, groups = [], [], {}
            want = [c for c in ("idElementValue", "startPointIndex", "pointCount") if r.random() < 0.8] or ["pointCount"]
            r.shuffle(want)
            for c in want:
                lo, hi = r.choice([(0, 9), (0, 1000), (-5, 100)]) if c == "idElementValue" else (0, r.choice([1, 100, 12345]))
                raw = [r.randint(lo, hi) for _ in range(m)]
                groups[c] = raw
                bound = c == "idElementValue" or r.random() < 0.8
                if not bound:
                    lo, hi = (0 if r.random() < 0.5 else I64MIN), I64MAX
                at = ([("minimum", lo)] if lo != I64MIN else []) + ([("maximum", hi)] if hi != I64MAX else [])
                cols.append((Node(c, "Integer", attrs=at, body="%d" % max(lo, min(hi, 0))), "int", lo, hi, raw))
                if c == "idElementValue":
                    E.el["groups/" + c] = {"span": hi - lo + 1}
                if c == "pointCount":
                    E.el["groups/" + c] = {"max": "%d" % hi, "n": clamp(hi)}
            if r.random() < 0.4:
                nf, fe, kind, lo, hi, raw, _ = field(r, "x", m)
                cols.insert(r.randint(0, len(cols)), (nf, kind, lo, hi, raw))
            gr = vector_of(r, b, "g%d" % k, "groups", cols, m)
            E.el["groups"] = {"count": str(m), "n": m}
            idn = E.put("groupingByLine/idElementName", string(r, "idElementName", by))
            gk.append(Node("groupingByLine", "Structure", [idn, gr]))
        kids.append(Node("pointGroupingSchemes", "Structure", gk))
    return Node("vectorChild", "Structure", kids), E.el, nums, groups, n


def image(r, b, rich, k, sizes):
    E = Elements(r, rich)
    kids = [E.put("guid", string(r, "guid", text(r)))]
    for t in ("name", "description", "associatedData3DGuid", "sensorVendor", "sensorModel", "sensorSerialNumber"):
        if E.on():
            kids.append(E.put(t, string(r, t, r.choice([text(r), ""]))))
    if E.on():
        kids.append(E.date("acquisitionDateTime"))
    if E.on():
        kids.append(E.pose())
    reps = (["vis"] if r.random() < 0.5 else []) + ([r.choice(["pin", "sph", "cyl"])] if r.random() < 0.7 else [])
    for rep in reps:
        m = {x: lambda n: floating(r, n, number(r), False) for x in MEMBERS[rep]}
        m.update({x: lambda n: integer(r, n, r.choice([0, 1, 640, 100000])) for x in ("imageWidth", "imageHeight")})
        s = E.struct(REPS[rep], REPS[rep], m)
        E.el[REPS[rep]] = {"v": ""}
        for c in ([r.choice(["jpegImage", "pngImage"])] if r.random() < 0.85 else []) + (["imageMask"] if r.random() < 0.4 else []):
            n, fill, where = sizes(r), r.randint(0, 237), "i%d.%s.%s" % (k, rep, c)
            b.blob(where, bytes([fill]) * n)
            E.el[REPS[rep] + "/" + c] = {"v": str(n), "n": n, "fill": fill}
            s.kids.append(Node(c, "Blob", attrs=[("length", n)], where=where))
        kids.append(s)
    if E.on(0.4):
        m = {}
        for x in ("CV_K1", "CV_K2", "CV_K3", "CV_K4", "CV_K5", "CV_K6", "CV_P1", "CV_P2", "CV_CX", "CV_CY", "CV_FX", "CV_FY"):
            m[x] = lambda n: floating(r, n, number(r), False)
        for x in ("CV_HEIGHT", "CV_WIDTH", "CameraNumber"):
            m[x] = lambda n: integer(r, n, r.choice([0, 1, 480, 99999]))
        m["Type"] = lambda n: string(r, n, text(r))
        d = r.choice([0.3, 0.7, 1.0])
        kids.append(E.struct("dist:distortion", "dist:distortion", {"dist:" + x: f for x, f in m.items() if r.random() < d}))
        E.el["dist:distortion"] = {"v": ""}
    return Node("vectorChild", "Structure", kids), E.el


def uses(node, prefix):
    return node.name.startswith(prefix + ":") or any(uses(k, prefix) for k in node.kids)


def nodes(node):
    yield node
    for k in node.kids:
        yield from nodes(k)


def disturb(r, root):
    """breaks the data model: elements of other types, missing elements, elements at other places"""
    for _ in range(r.choice([1, 1, 2, 4])):
        all = list(nodes(root))
        n = r.choice(all)
        k = r.random()
        if k < 0.4 and n.kids:
            n.kids.remove(r.choice(n.kids))
        elif k < 0.8 and n is not root:
            n.type = r.choice(["Structure", "Vector", "Integer", "ScaledInteger", "Float", "String", "CompressedVector", "Blob"])
            if n.type in ("Structure", "Vector", "String") and r.random() < 0.7:
                n.where, n.attrs = None, []
            elif n.type in ("Integer", "ScaledInteger", "Float"):
                n.attrs, n.where, n.kids, n.body = [], None, [], r.choice(["", "1", "-7"])
        elif n.kids:
            m = r.choice(all)
            if not any(x is n for x in nodes(m)):
                n.kids.append(m)


def make_file(r, prof):
    b = e5.Builder()
    rich = r.choice([0.1, 0.4, 0.7, 1.0])
    scans, images = [], []
    todo = ["s"] * prof["scans"](r) + ["i"] * prof["images"](r)
    r.shuffle(todo)
    for t in todo:
        if r.random() < 0.3:
            b.skip(r.choice([4, 100, 1000, 1020]))
        if t == "s":
            scans.append(scan(r, b, rich, len(scans), prof["n"]))
        else:
            images.append(image(r, b, rich, len(images), prof["size"]))
    E = Elements(r, rich)
    kids = [E.put("formatName", string(r, "formatName", "ASTM E57 3D Imaging Data File")), E.put("guid", string(r, "guid", text(r))),
            E.put("versionMajor", integer(r, "versionMajor", 1)), E.put("versionMinor", integer(r, "versionMinor", r.choice([0, 0, 1])))]
    if E.on():
        kids.append(E.put("e57LibraryVersion", string(r, "e57LibraryVersion", r.choice(["", "Other-1.0"]))))
    if E.on():
        kids.append(E.put("coordinateMetadata", string(r, "coordinateMetadata", text(r))))
    if E.on():
        kids.append(E.date("creationDateTime"))
    if scans or r.random() < 0.6:
        kids.append(Node("data3D", "Vector", [s[0] for s in scans], attrs=[("allowHeterogeneousChildren", 1)]))
    if images or r.random() < 0.6:
        kids.append(Node("images2D", "Vector", [s[0] for s in images], attrs=[("allowHeterogeneousChildren", 1)]))
    root = Node("e57Root", "Structure", kids)
    if prof.get("odd"):
        disturb(r, root)
    extras = r.choice([0, 0, 0.2, 0.5])
    ns = {p: u for p, u in NAMESPACES.items() if p == "ext" or uses(root, p) or r.random() < 0.2}

    def xml(pos):
        root.attrs = [("xmlns", e5.NS)] + [("xmlns:" + p, u) for p, u in ns.items()]
        return r.choice(['<?xml version="1.0" encoding="UTF-8"?>\n', "<?xml version='1.0'?>"]) + root.xml(r, pos, extras)
    return b.finish(xml), E.el, scans, images


def reading(rng, prof):
    seed = rng.randrange(1 << 60)

    def make(wd):
        r = random.Random(seed)
        path = "%s/f%x.e57" % (wd, seed)
        phys, root, scans, images = make_file(r, prof)
        with open(path, "wb") as f:
            f.write(phys)
        cmds = [Cmd("sr.open", {"op": "file", "root": root, "scans": [s[1] for s in scans], "images": [m[1] for m in images]}, s="s", path=path,
                    policy=r.choice([0, 25, 50, 100]))]
        todo = [[Cmd("sr.root", {"op": "root"}, s="s")]]
        for i, (_, el, nums, groups, n) in enumerate(scans):
            one = []
            one.append(Cmd("sr.head", {"op": "rhead", "i": i}, s="s", i=i))
            one.append(Cmd("sr.sizes", {"op": "sizes", "i": i}, s="s", i=i))
            for _ in range(r.choice([1, 1, 2])):
                kind = r.choice(["float", "double"])
                fs = [f for f in FIELDS if r.random() < r.choice([0.3, 0.7, 1.0])]
                fs = fs if set(fs) & set(nums) else FIELDS
                want = {f: nums[f] for f in fs if f in nums}
                one.append(Cmd("sr.values", {"op": "values", "i": i, "kind": kind, "want": want}, s="s", i=i, kind=kind, fields=",".join(fs),
                               block=r.choice([1, 2, 7, 100, 1000]) if n < 200 else r.choice([10, 333, 5000])))
            if groups is not None or r.random() < 0.3:
                m = r.choice([1, 3, 10, 120])
                omit = r.choice(["", "", "id", "start", "count"])
                cols = []
                for c, o in (("idElementValue", "id"), ("startPointIndex", "start"), ("pointCount", "count")):
                    q = groups[c][:m] if groups and c in groups and omit != o else []
                    cols.append(q + [-9] * (m - len(q)))
                if groups is None or any(c in groups and omit != o for c, o in (("idElementValue", "id"), ("startPointIndex", "start"), ("pointCount", "count"))):
                    one.append(Cmd("sr.groups", {"op": "rgroups", "i": i, "want": cols}, s="s", i=i, n=m, omit=omit))
            r.shuffle(one)
            todo.append(one)
        for i, (_, el) in enumerate(images):
            one = [Cmd("sr.image", {"op": "rimage", "i": i}, s="s", i=i), Cmd("sr.imgsizes", {"op": "rimgsizes", "i": i}, s="s", i=i)]
            for rep, p in REPS.items():
                for c, t in TYPES.items():
                    e = el.get(p + "/" + c)
                    if e is None and r.random() < 0.8:
                        continue
                    n = e["n"] if e else 5
                    for _ in range(r.choice([1, 1, 2, 3])):
                        s, k = r.choice([(0, n), (0, n), (r.randint(0, n), r.choice([0, 1, n])), (n, 0), (n // 2, n - n // 2)])
                        one.append(Cmd("sr.imgdata", {"op": "rimgdata", "i": i, "proj": PROJ[rep], "type": t, "start": s, "count": k}, s="s", i=i,
                                       proj=PROJ[rep], type=t, start=s, count=k))
            r.shuffle(one)
            todo.append(one)
        for k, q in ((r.choice([-1, len(scans)]), "sr.head"), (r.choice([-1, len(images)]), "sr.image")):
            todo.append([Cmd(q, {"op": "rhead" if q == "sr.head" else "rimage", "i": k}, s="s", i=k)])
        r.shuffle(todo)
        cmds += [c for q in todo for c in q]
        if prof.get("odd"):
            for c in cmds:
                c.ev = {"op": "odd"}
        cmds += [Cmd("sr.close", s="s"), Cmd("sr.drop", s="s"), Cmd("file.rm", path=path)]
        return cmds
    return make


def post(prog):
    evs = []
    for c in prog:
        ev, res = c.ev, {k: v for k, v in c.res.items() if k != "stderr"}
        if c.op.startswith("sr.") and c.op != "sr.open" and prog[0].ev["op"] == "odd" and prog[0].res["r"] not in ("ok", "CRASH", "HANG"):
            continue
        if ev is None or res["r"] in ("CRASH", "HANG", "SKIPPED") or res["r"].endswith("-IN-RESET"):
            evs.append({"op": "setup", "cmd": c.op, "r": res["r"]})
        elif ev["op"] == "odd":
            evs.append({"op": "odd", "cmd": c.op, "r": res["r"], "res": res.get("res", res["r"])})
        elif ev["op"] in ("rhead", "rimage"):
            evs.append({**ev, "r": res["r"], "ret": res.get("ret", False), "got": res.get("v", {})})
        elif ev["op"] == "sizes":
            evs.append({**ev, **res, **{k: clamp(res.get(k, -7)) for k in ("row", "col", "points", "groups", "count")}})
        elif ev["op"] == "values":
            got = res.get("cols", {})
            cols = [{"f": f, "d": [hexd(x) for x in w], "s": [hexd(single(x)) for x in w], "got": got.get(f, [])} for f, w in ev["want"].items()]
            evs.append({"op": "values", "i": ev["i"], "kind": ev["kind"], "r": res["r"], "n": res.get("n", -1), "cols": cols})
        else:
            evs.append({**ev, **res})
    return evs


SMALL = dict(scans=lambda r: r.choice([0, 1, 1, 2, 3]), images=lambda r: r.choice([0, 0, 1, 2]), n=lambda r: r.choice([0, 1, 2, 5, 20]),
             size=lambda r: r.choice([1, 2, 10, 300]))
LARGER = dict(scans=lambda r: 1, images=lambda r: r.choice([0, 1]), n=lambda r: r.choice([200, 500]), size=lambda r: r.choice([1019, 1020, 1021, 5000]))
MANY = dict(SMALL, scans=lambda r: r.randint(10, 14), images=lambda r: r.randint(0, 13), n=lambda r: r.choice([0, 1, 2]))
ODD = dict(SMALL, odd=True, scans=lambda r: r.choice([0, 1, 1]), images=lambda r: r.choice([0, 1]))


def p22(ck):
    exe = build("asan")
    ck.model("MC_Foreign", "MC_Foreign_deep.cfg" if ck.thorough else None)
    rng = ck.rng
    ck.conform(exe, "Trace_Foreign", [reading(rng, SMALL) for _ in range(8000 if ck.thorough else 1200)], "files", post=post)
    ck.conform(exe, "Trace_Foreign", [reading(rng, LARGER) for _ in range(400 if ck.thorough else 60)], "larger files", post=post)
    ck.conform(exe, "Trace_Foreign", [reading(rng, MANY) for _ in range(200 if ck.thorough else 20)], "files of many scans", post=post)
    ck.conform(exe, "Trace_Foreign", [reading(rng, ODD) for _ in range(8000 if ck.thorough else 1000)], "files that break the data model", post=post)
    return ck.finish("model_checking", RULE)


RULE = ("files laid out byte by byte without the library, with every combination of optional elements and node types, in any order; what the "
        "Reader of the Simple API tells of them is judged by Foreign.tla")
CHECKS = {"P22": p22}

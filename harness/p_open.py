"""P06: malformed files are refused with the documented error."""
import random
import re
import struct
import xml.parsers.expat as expat

from core import Cmd, build
import e57file as e5
import p_layout as pl

BIG = pl.BIG
I64 = (1 << 63) - 1
INT = re.compile(r"^[ \t\r\n]*[-+]?[0-9]+[ \t\r\n]*$")
FLT = re.compile(r"^[ \t\r\n]*[-+]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][-+]?[0-9]+)?[ \t\r\n]*$")
F32MAX, F64MAX = 3.4028234663852886e38, 1.7976931348623157e308


# ------------------------------------------------------------------------------------ measurement

class Odd(Exception):
    """something whose treatment is not promised"""


def whole(text, lo=-I64 - 1, hi=I64):
    if not INT.match(text):
        raise Odd(text)
    v = int(text)
    if not lo <= v <= hi:
        raise Odd(text)
    return v


def real(text):
    if not FLT.match(text):
        raise Odd(text)
    v = float(text)
    if abs(v) > F64MAX or (v != 0 and abs(v) < 1e-300):
        raise Odd(text)
    return v


def count_attr(a, name):
    if name not in a:
        return "none"
    return "neg" if whole(a[name]) < 0 else "ok"


def element(a, text):
    """attributes that matter, by type"""
    t = a.get("type", "")
    d = dict(off="none", len="none", cnt="none", het="none", prec="none", rng="ok", val="none", sig="")
    if t in ("Blob", "CompressedVector"):
        d["off"] = count_attr(a, "fileOffset")
    if t == "Blob":
        d["len"] = count_attr(a, "length")
        d["sig"] = str(whole(a["length"])) if d["len"] == "ok" else ""
    elif t == "CompressedVector":
        d["cnt"] = count_attr(a, "recordCount")
        d["sig"] = str(whole(a["recordCount"])) if d["cnt"] == "ok" else ""
    elif t == "Vector":
        if "allowHeterogeneousChildren" in a:
            v = whole(a["allowHeterogeneousChildren"])
            d["het"] = str(v) if v in (0, 1) else "bad"
    elif t in ("Integer", "ScaledInteger"):
        lo = whole(a["minimum"]) if "minimum" in a else -I64 - 1
        hi = whole(a["maximum"]) if "maximum" in a else I64
        d["sig"] = "%d %d" % (lo, hi)
        if t == "ScaledInteger":
            sc, of = real(a.get("scale", "1")), real(a.get("offset", "0"))
            if sc == 0:
                raise Odd("scale")
            d["sig"] += " %r %r" % (sc + 0.0, of + 0.0)
        d["rng"] = "ok" if lo <= hi else "bad"
        if text:
            d["val"] = "in" if lo <= whole(text) <= hi else "out"
    elif t == "Float":
        p = a.get("precision", "none")
        d["prec"] = p if p in ("none", "single", "double") else "bad"
        m = F32MAX if p == "single" else F64MAX
        lo = real(a["minimum"]) if "minimum" in a else -m
        hi = real(a["maximum"]) if "maximum" in a else m
        if max(abs(lo), abs(hi)) > m:
            raise Odd("range")
        d["sig"] = "%s %r %r" % ("single" if p == "single" else "double", lo + 0.0, hi + 0.0)
        d["rng"] = "ok" if lo <= hi else "bad"
        if text:
            v = real(text)
            if abs(v) > m or (v not in (lo, hi) and any(abs(v - b) < 1e-6 * abs(b) for b in (lo, hi))):
                raise Odd("rounding")
            d["val"] = "in" if lo <= v <= hi else "out"
    return d


def measure_xml(data):
    """the specification's record of an XML section"""
    els, stack, decl, odd = [], [], [], [False]
    roots = {}

    def ns(prefix, uri):
        decl.append((prefix, uri))

    def start(name, attrs):
        part = name.split("\x01")
        prefix = part[2] if len(part) > 2 else ""
        local = part[1] if len(part) > 1 else part[0]
        q = (prefix + ":" if prefix else "") + local
        e = dict(par=stack[-1]["i"] if stack else 0, name=q, attrs=attrs, text="", i=len(els) + 1, closed=False, ns=any(p is None for p, _ in decl))
        if not stack:
            roots.update({p: u for p, u in decl})
            if any(not u for _, u in decl) or (prefix and local == "e57Root"):
                odd[0] = True
        elif prefix and prefix not in roots:
            odd[0] = True
        if not q.isascii() or prefix == "xml":
            odd[0] = True
        del decl[:]
        els.append(e)
        stack.append(e)

    def end(name):
        stack.pop()["closed"] = True

    def text(t):
        stack[-1]["text"] += t

    def doctype(*a):
        odd[0] = True

    def xmldecl(version, enc, standalone):
        if version != "1.0" or (enc or "UTF-8").upper() != "UTF-8":
            odd[0] = True
    p = expat.ParserCreate(namespace_separator="\x01")
    p.namespace_prefixes = True
    p.StartNamespaceDeclHandler, p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = ns, start, end, text
    p.StartDoctypeDeclHandler, p.XmlDeclHandler = doctype, xmldecl
    wf, loose = True, False
    try:
        p.Parse(data, True)
    except LookupError:
        wf, odd[0] = False, True
    except expat.ExpatError as x:
        wf = False
        loose = x.code not in (3, 5)
        if x.code in (18, 19, 30):  # encodings
            odd[0] = True
        if els and els[0]["closed"] and 0 in data:  # zero bytes may be taken for the end
            odd[0] = True
    if re.search(rb"encoding|version", data[:200]) and not re.match(rb'<\?xml version="1.0"( encoding="UTF-8")?\?>', data):
        odd[0] = True
    if len(data) >= 2 and (data[:2] in (b"\xff\xfe", b"\xfe\xff") or 0 in data[:4]):
        odd[0] = True
    out = []
    for e in els:
        t = e["text"]
        tx = "none" if not t else "space" if not t.strip(" \t\r\n") else "text"
        try:
            d = element(e["attrs"], t)
        except Odd:
            odd[0] = True
            d = element({"type": "String"}, "")
        out.append(dict(par=e["par"], name=e["name"], type=e["attrs"].get("type", ""), tx=tx, closed=e["closed"], ns=e["ns"], **d))
    return dict(wf=wf, loose=loose, els=out, odd=odd[0])


def measure_file(phys):
    h = dict(size=len(phys), sig="", major=0, minor=0, length="", psize="", xml="out")
    x = dict(wf=False, loose=False, els=[], odd=False)
    if len(phys) >= 48:
        sig, major, minor, length, xoff, xlen, psize = struct.unpack_from("<8sIIQQQQ", phys, 0)
        h.update(sig="".join(chr(c) if 32 < c < 127 and c != 92 and c != 34 else "?" for c in sig), major=min(major, BIG), minor=min(minor, BIG),
                 length=str(length), psize=str(psize))
        log, bad = e5.unseal(phys)
        if xoff % e5.PAGE >= e5.PAYLOAD:
            h["xml"] = "crc"
        elif xoff < len(phys):
            a = e5.phys2log(xoff)
            h["xml"] = "in" if a + xlen <= len(log) else "out"
            x = measure_xml(log[a:min(len(log), a + xlen)])
    return dict(hdr=h, xml=x)


class Vec:
    """what a vector was built to hold"""

    def __init__(self, name, flds, data, n):
        self.name, self.flds, self.data, self.n = name, flds, data, n
        self.streams = [e5.encode(f.kind, d, f.lo, f.hi) for f, d in zip(flds, data)]

    def need(self, n):
        out = []
        for f, d, s in zip(self.flds, self.data, self.streams):
            if f.kind == "int":
                b = (n * (f.hi - f.lo).bit_length() + 7) // 8
            elif f.kind == "str":
                b = len(e5.encode("str", d[:n])) if n <= len(d) else len(s) + 1
            else:
                b = n * (4 if f.kind == "f32" else 8)
            out.append(min(b, BIG))
        return out

    def text(self, j, k):
        v = self.data[j][k]
        return v.hex() if self.flds[j].kind == "str" else str(v)


def measure_vec(phys, vec, off, n):
    f = e5.File(phys)
    cl = lambda v: min(v, BIG)
    s = dict(at="in", n=cl(n), size=len(phys), lsize=len(f.log), id=0, res=False, len=0, mod4=0, doff=0, ioff=0, where="in",
             leaves=len(vec.flds), need=vec.need(n), pkts=[])
    if off == 0:
        s["at"] = "zero"
        return s
    if off % e5.PAGE >= e5.PAYLOAD:
        s["at"] = "crc"
        return s
    sec = f.section(off)
    if sec is None:
        s["at"] = "out"
        return s
    s.update(id=sec["id"], res=any(sec["reserved"]), len=cl(sec["len"]), mod4=sec["len"] % 4, doff=cl(sec["doff"]), ioff=cl(sec["ioff"]))
    end = sec["at"] + sec["len"]
    a = e5.phys2log(sec["doff"])
    if sec["doff"] % e5.PAGE >= e5.PAYLOAD:
        s["where"] = "crc"
        return s
    if not sec["at"] + 32 <= a < end:
        s["where"] = "off"
        return s
    got = [b""] * len(vec.flds)
    clean = True
    log = f.log
    while a < end:
        if len(s["pkts"]) >= 40:
            s["where"] = "long"
            break
        p = dict(t=0, len=0, cnt=0, lens=[], sum=0, pad=False, entries=0, level=0, res=False, fits=False, clean=True)
        s["pkts"].append(p)
        if a + 4 > len(log):
            break
        t, flags, lm1 = struct.unpack_from("<BBH", log, a)
        n = lm1 + 1
        b = log[a:a + n]
        p.update(t=t, len=n, fits=a + n <= len(log))
        if t == 1 and len(b) >= 6:
            cnt = struct.unpack_from("<H", b, 4)[0]
            p["cnt"] = cnt
            if 6 + 2 * cnt <= len(b):
                lens = list(struct.unpack_from("<%dH" % cnt, b, 6))
                p.update(lens=lens[:40], sum=sum(lens))
                q = 6 + 2 * cnt
                for i, k in enumerate(lens):
                    if i < len(got):
                        got[i] += b[q:q + k]
                        m = min(len(got[i]), len(vec.streams[i]))
                        clean = clean and got[i][:m] == vec.streams[i][:m]
                    q += k
                p["pad"] = any(b[q:])
        elif t == 0 and len(b) >= 16:
            k = struct.unpack_from("<H", b, 4)[0]
            p.update(entries=k, level=b[6], res=any(b[7:16]), pad=any(b[16 + 16 * k:]))
        p["clean"] = clean
        if not p["fits"]:
            break
        a += n
    return s


# ------------------------------------------------------------------------------------------- files

def make_vectors(r, size=1500):
    vecs = []
    for k in range(r.choice([1, 1, 2])):
        px, flds = pl.random_fields(r, r.choice([1, 2, 3]), kinds=["int", "int", "f32", "f64", "str"])
        n = r.choice([0, 1, 7, 20, 60, 150])
        n = int(min(n, size / (len(flds) * 8)))
        data = [pl.random_values(r, f.kind, f.lo, f.hi, n, 10) for f in flds]
        v = Vec("vec%d" % k, flds, data, n)
        m = r.choice([1, 2, 4])
        pk, idx = pl.assemble(r, v.streams, [pl.cut(r, s, m, "any") for s in v.streams], r.random() < 0.7)
        vecs.append((v, (v.name, px, flds, data, pk, idx, n)))
    blobs = [("blob%d" % i, bytes(r.randrange(256) for _ in range(r.choice([0, 10, 1100])))) for i in range(r.choice([0, 1]))]
    return [v for v, _ in vecs], pl.file_of(r, [x for _, x in vecs], blobs, r.random() < 0.2, r.random() < 0.5)


def put(log, a, n, v):
    log[a:a + n] = (v & ((1 << 8 * n) - 1)).to_bytes(n, "little")


HEADER = [("sig", 0, 8), ("major", 8, 4), ("minor", 12, 4), ("length", 16, 8), ("xoff", 24, 8), ("xlen", 32, 8), ("psize", 40, 8)]


def header_mutants(r, phys):
    f = e5.File(phys)
    out = []
    for name, a, n in HEADER:
        v = int.from_bytes(f.log[a:a + n], "little")
        for w in {0, 1, 2, v + 1, v - 1, v + 4, v - 4, v * 2, v + 1024, v - 1024, v ^ (1 << r.randrange(8 * n)), len(phys), len(phys) - 4, len(phys) - 1,
                  1 << 31, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, 1020, 512, 2048, 48, 47, v + (1 << 32)}:
            log = bytearray(f.log)
            put(log, a, n, w)
            if log != f.log:
                out.append(e5.seal(bytes(log)))
    for w in (b"ASTM-E58", b"ASTM-e57", b"astm-e57", b"ASTM-E5\0", b"\0STM-E57", b"TSAM-E57", b"ASTM E57"):
        out.append(e5.seal(w + f.log[8:]))
    for n in {0, 1, 47, 48, 49, 1023, 1024, 1025, len(phys) - 1, len(phys) - 1024, len(phys) - 4, len(phys) + 1, len(phys) + 4, len(phys) + 1024,
              r.randrange(len(phys)), r.randrange(len(phys)), r.randrange(0, len(phys), 1024)}:
        cut = phys[:n] + b"\0" * max(0, n - len(phys))
        out.append(cut)
        if n >= 1024:
            log = bytearray(cut)
            put(log, 16, 8, n)
            out.append(e5.reseal(bytes(log)))
    return out


def numbers(r, v, n, size):
    return {0, 1, 2, v + 1, v - 1, v + 4, v - 4, v * 2, v ^ (1 << r.randrange(8 * n)), v ^ (1 << r.randrange(8 * n)), size, size - 1, size + 1, size - 4,
            (1 << (8 * n)) - 1, (1 << (8 * n - 1)) - 1, (1 << (8 * n - 1)), r.randrange(1 << 16), v + 3, 3, 4}


def vector_mutants(r, phys, vecs, per):
    """(bytes, index of the vector, its offset, its record count)"""
    f = e5.File(phys)
    x0 = e5.phys2log(f.hdr["xoff"])
    out = []
    for vi, v in enumerate(vecs):
        e = [k for k in f.root.kids if k.name == v.name][0]
        off = int(e.attrs["fileOffset"])
        sec = f.section(off)
        spots = [("id", sec["at"], 1), ("len", sec["at"] + 8, 8), ("doff", sec["at"] + 16, 8), ("ioff", sec["at"] + 24, 8)]
        spots += [("res", sec["at"] + 1 + i, 1) for i in range(7)]
        for p in f.packets(sec):
            a = p["at"]
            sp = [("type", a, 1), ("plen", a + 2, 2), ("plen", a + 2, 2)]
            if p["type"] == 1:
                sp += [("cnt", a + 4, 2)] + [("lens", a + 6 + 2 * i, 2) for i in range(len(p["lens"]))]
                if p["pad"]:
                    sp.append(("pad", a + p["len"] - 1 - r.randrange(len(p["pad"])), 1))
            elif p["type"] == 0:
                sp += [("entries", a + 4, 2), ("level", a + 6, 1), ("ires", a + r.randint(7, 15), 1)]
            spots += sp
        r.shuffle(spots)
        for name, a, n in spots[:per]:
            old = int.from_bytes(f.log[a:a + n], "little")
            vals = [w & ((1 << 8 * n) - 1) for w in numbers(r, old, n, len(phys))]
            vals = sorted(set(vals) - {old})
            for w in (vals if name in ("len", "doff", "ioff") and r.random() < 0.5 else r.sample(vals, min(len(vals), 5))):
                log = bytearray(f.log)
                put(log, a, n, w)
                out.append((e5.seal(bytes(log)), vi, off, v.n))
        # two lengths changed against each other
        for p in f.packets(sec):
            if p["type"] == 1 and len(p["lens"]) > 1 and r.random() < 0.3:
                log = bytearray(f.log)
                i, j = r.sample(range(len(p["lens"])), 2)
                k = r.choice([1, 2, p["lens"][i]])
                if k <= p["lens"][i]:
                    put(log, p["at"] + 6 + 2 * i, 2, p["lens"][i] - k)
                    put(log, p["at"] + 6 + 2 * j, 2, p["lens"][j] + k)
                    out.append((e5.seal(bytes(log)), vi, off, v.n))
        # offsets and record counts in the XML
        hungry = any(x > 0 for x in v.need(1000))
        for n in {0, 1, v.n - 1, v.n + 1, v.n + 8, 2 * v.n, v.n // 2} | ({1 << 31, 1 << 40, I64} if hungry else set()):
            if n >= 0 and n != v.n:
                out.append((rewrite(f, x0, e, "recordCount", n), vi, off, n))
        for o in {0, 4, 48, off + 4, off - 4, off + 1, off + 32, len(phys), len(phys) - 4, len(phys) - 36, len(phys) + 1024, 1 << 40, I64, off + 1024, 1020, 1023}:
            if o >= 0 and o != off:
                out.append((rewrite(f, x0, e, "fileOffset", o), vi, o, v.n))
    return out


def rewrite(f, x0, e, attr, value):
    """the same file with another value of an attribute; the XML section moves to the end"""
    t = bytes(f.log[x0:x0 + f.hdr["xlen"]]).decode("utf-8")
    m = re.search(r'<%s [^>]*%s="(-?[0-9]+)"' % (re.escape(e.name), attr), t)
    t = (t[:m.start(1)] + str(value) + t[m.end(1):]).encode("utf-8")
    return with_xml(f, x0, t)


def with_xml(f, x0, t):
    log = bytearray(f.log)
    if x0 + len(t) <= len(log) and x0 + f.hdr["xlen"] < len(log) - e5.PAYLOAD:
        x0 = len(log)
        log += t
    else:
        log[x0:] = t
    n = (len(log) + e5.PAYLOAD - 1) // e5.PAYLOAD * e5.PAGE
    put(log, 16, 8, n)
    put(log, 24, 8, e5.log2phys(x0))
    put(log, 32, 8, len(t))
    return e5.seal(bytes(log))


# ---------------------------------------------------------------------------------------- documents

class E:
    def __init__(self, name, type, kids=(), text="", **at):
        self.name, self.kids, self.text = name, list(kids), text
        self.at = [["type", type]] + [[k, str(v)] for k, v in at.items()]

    def get(self, k):
        return next((v for n, v in self.at if n == k), None)

    def put(self, k, v):
        for a in self.at:
            if a[0] == k:
                a[1] = v
                return
        self.at.append([k, v])

    def drop(self, k):
        self.at = [a for a in self.at if a[0] != k]

    def copy(self):
        c = E(self.name, None, [k if isinstance(k, str) else k.copy() for k in self.kids], self.text)
        c.at = [list(a) for a in self.at]
        return c

    def walk(self):
        yield self
        for k in self.kids:
            if not isinstance(k, str):
                yield from k.walk()

    def xml(self):
        a = "".join(' %s="%s"' % (k, v) for k, v in self.at)
        body = self.text + "".join(k if isinstance(k, str) else k.xml() for k in self.kids)
        return "<%s%s/>" % (self.name, a) if not body else "<%s%s>%s</%s>" % (self.name, a, body, self.name)


def number(r, name):
    k = r.choice(["Integer", "ScaledInteger", "Float"])
    lo = r.choice([0, -5, -1000, 3])
    hi = lo + r.choice([0, 1, 10, 1000])
    e = E(name, k)
    if r.random() < 0.7:
        e.put("minimum", str(lo))
    if r.random() < 0.7:
        e.put("maximum", str(hi))
    if k == "ScaledInteger" and r.random() < 0.6:
        e.put("scale", r.choice(["0.5", "1e-3", "2"]))
    if k == "ScaledInteger" and r.random() < 0.4:
        e.put("offset", r.choice(["0.5", "-100", "2"]))
    if k == "Float" and r.random() < 0.4:
        e.put("precision", r.choice(["single", "double"]))
    if (lo <= 0 <= hi and r.random() < 0.3) is False:
        e.text = str(r.choice([lo, hi, (lo + hi) // 2]))
    return e


def tree(r, name, depth, pos):
    k = r.choice(["num", "num", "str", "Structure", "Vector", "hom", "CompressedVector", "Blob"]) if depth else r.choice(["num", "str", "Blob"])
    if k == "num":
        return number(r, name)
    if k == "str":
        return E(name, "String", text=r.choice(["", "hello", " ", "&lt;a&gt;", "<![CDATA[x <y>]]>", "a&amp;b"]))
    if k == "Structure":
        return E(name, "Structure", [tree(r, r.choice(["a", "b", "q:c"]) + str(i), depth - 1, pos) for i in range(r.randint(0, 3))])
    if k == "Vector":
        return E(name, "Vector", [tree(r, "vectorChild", depth - 1, pos) for _ in range(r.randint(0, 3))], allowHeterogeneousChildren=1)
    if k == "hom":
        c = tree(r, "vectorChild", depth - 1, pos)
        v = E(name, "Vector", [c.copy() for _ in range(r.randint(0, 3))])
        if r.random() < 0.5:
            v.put("allowHeterogeneousChildren", "0")
        return v
    if k == "CompressedVector":
        proto = E("prototype", "Structure", [number(r, "x%d" % i) for i in range(r.randint(1, 3))])
        kids = [proto, E("codecs", "Vector", allowHeterogeneousChildren=1)]
        if r.random() < 0.1:
            kids.pop()
        elif r.random() < 0.2:
            kids.reverse()
        return E(name, "CompressedVector", kids, fileOffset=pos["v"], recordCount=r.choice([0, 0, 5]))
    return E(name, "Blob", fileOffset=pos["b"], length=r.choice([0, 3, 8]))


TYPES = ["Structure", "Vector", "CompressedVector", "Integer", "ScaledInteger", "Float", "String", "Blob", "integer", "", "Int", "Strings", "structure"]


def edit(r, root, pos):
    """one change of a document; it may or may not break a rule"""
    els = list(root.walk())
    e = r.choice(els)
    k = r.choice(["type", "type", "dropattr", "attr", "attr", "rename", "remove", "dup", "dup", "move", "text", "text", "swap", "value", "value", "bounds", "bounds",
                  "nest", "root", "misc", "kind", "shuffle", "cvkid"])
    if k == "type":
        e.put("type", r.choice(TYPES))
    elif k == "dropattr":
        if e.at:
            e.at.remove(r.choice(e.at))
    elif k == "attr":
        n = r.choice(["minimum", "maximum", "scale", "offset", "precision", "allowHeterogeneousChildren", "fileOffset", "length", "recordCount", "type", "foo"])
        have = [a[0] for a in e.at if a[0] not in ("xmlns", "xmlns:q")]
        if have and r.random() < 0.7:
            n = r.choice(have)
        v = {"precision": ["single", "double", "half", "Single", ""], "type": TYPES,
             "allowHeterogeneousChildren": ["0", "1", "2", "-1", "01", "true"]}.get(n, ["0", "1", "-1", "5", "-5", "1000000", "abc", "", "9223372036854775807", "-9223372036854775808",
                                                                                       "99999999999999999999", "1.5", str(pos["v"]), "-9999999999"])
        e.put(n, r.choice(v))
    elif k == "rename":
        e.name = r.choice(["prototype", "codecs", "a0", "b1", "z", "q:z", "e57Root", "p:z", "x0", "Prototype"])
    elif k in ("remove", "dup", "move", "shuffle", "nest"):
        par = [p for p in els if any(not isinstance(c, str) for c in p.kids)]
        if par:
            p = r.choice(par)
            c = r.choice([c for c in p.kids if not isinstance(c, str)])
            if k == "remove":
                p.kids.remove(c)
            elif k == "dup":
                d = c.copy()
                if r.random() < 0.3:
                    d.name += "d"
                p.kids.insert(r.randint(0, len(p.kids)), d)
            elif k == "move":
                p.kids.remove(c)
                r.choice([x for x in root.walk()]).kids.append(c)
            elif k == "shuffle":
                r.shuffle(p.kids)
            else:
                e.kids.append(number(r, r.choice(["n", "prototype", "codecs"])))
    elif k == "text":
        e.kids.insert(r.randint(0, len(e.kids)), r.choice([" ", "\n\t", "x", "hello", "0", "5", "<![CDATA[ ]]>", "<![CDATA[z]]>", "<!-- c -->", "<?pi x?>", "&#32;", "&#65;", "&amp;"]))
    elif k == "swap":
        if e.get("minimum") and e.get("maximum"):
            a, b = e.get("minimum"), e.get("maximum")
            e.put("minimum", b)
            e.put("maximum", a)
    elif k == "value":
        nums = [x for x in els if x.get("type") in ("Integer", "ScaledInteger", "Float")]
        if nums:
            e = r.choice(nums)
            e.text = r.choice(["0", "3", "4", "-6", "-5", "-1001", "13", "1003", "1004", "5000000000", ""])
    elif k == "bounds":
        nums = [x for x in els if x.get("type") in ("Integer", "ScaledInteger", "Float")]
        if nums:
            r.choice(nums).put(r.choice(["minimum", "maximum"]), r.choice(["0", "-5", "3", "4", "5", "-1000", "1000", "1001"]))
    elif k == "root":
        w = r.choice(["name", "ns", "type", "otherns", "nons", "prefix"])
        if w == "name":
            root.name = r.choice(["e57root", "E57Root", "root", "e57Roots", "e57Roo"])
        elif w == "ns":
            root.drop("xmlns")
        elif w == "type":
            root.put("type", r.choice(TYPES))
        elif w == "otherns":
            root.put("xmlns", "http://example.com/x")
        elif w == "nons":
            root.drop("xmlns:q")
        else:
            root.put("xmlns:p", "http://p")
    elif k == "misc":
        e.at.append(r.choice([["xml:lang", "en"], ["q:type", "String"], ["unknown", "1"], list(e.at[0]) if e.at else ["t", "u"]]))
    elif k == "kind":
        e.at = [["type", r.choice(TYPES[:8])]]
    elif k == "cvkid":
        cv = [x for x in els if x.get("type") == "CompressedVector"]
        if cv:
            c = r.choice(cv)
            w = r.choice(["proto", "codecs", "other", "noproto", "nocodecs", "homcodecs", "type"])
            if w == "proto":
                c.kids.append(E("prototype", "Structure", [number(r, "x0")]))
            elif w == "codecs":
                c.kids.append(E("codecs", "Vector", allowHeterogeneousChildren=1))
            elif w == "other":
                c.kids.append(number(r, "other"))
            elif w in ("noproto", "nocodecs"):
                c.kids = [x for x in c.kids if isinstance(x, str) or x.name != w[2:].replace("proto", "prototype")]
            else:
                for x in c.kids:
                    if not isinstance(x, str) and x.name == "codecs":
                        if w == "homcodecs":
                            x.drop("allowHeterogeneousChildren")
                        else:
                            x.put("type", r.choice(TYPES[:8]))


def fuzz(r, t):
    t = bytearray(t)
    k = r.choice(["byte", "del", "dup", "ins", "cut", "swap", "decl"])
    if k == "byte":
        for _ in range(r.choice([1, 2, 5])):
            t[r.randrange(len(t))] = r.randrange(256)
    elif k == "del":
        a = r.randrange(len(t))
        del t[a:a + r.choice([1, 1, 2, 10, 50])]
    elif k == "dup":
        a = r.randrange(len(t))
        b = min(len(t), a + r.randint(1, 200))
        t[b:b] = t[a:b]
    elif k == "ins":
        a = r.randrange(len(t))
        t[a:a] = r.choice([b"<", b">", b"&amp;", b"&x;", b"<!--x-->", b"<![CDATA[x]]>", b"<?pi x?>", b"\xff", b"\x00", b"\xc3\xa9", b'"', b"<a/>",
                           b'<a type="String"/>', b"]]>", b"&#0;", b"&#xD800;", b"--", b"</e57Root>", b"<!DOCTYPE a>"])
    elif k == "cut":
        del t[r.randrange(len(t)):]
    elif k == "swap":
        a, b = sorted(r.sample(range(len(t)), 2))
        t = t[:a] + t[b:] + t[a:b]
    else:
        t = bytearray(bytes(t).replace(b"UTF-8", r.choice([b"FOO", b"UTF-16", b"ISO-8859-1", b"US-ASCII", b"EBCDIC-CP-US", b"UCS-4", b""]), 1))
    return bytes(t)


def document(r, nedits, byte):
    """an E57 file around a generated document"""
    b = e5.Builder()
    b.vector("v", [e5.data_packet([b"\0" * 8] * 3)])
    b.blob("b", b"12345678")
    root = E("e57Root", "Structure", [tree(r, "e%d" % i, 3, b.pos) for i in range(r.randint(1, 5))])
    root.at += [["xmlns", e5.NS], ["xmlns:q", "http://q"]]
    for _ in range(nedits):
        edit(r, root, b.pos)
    text = '<?xml version="1.0" encoding="UTF-8"?>\n' + root.xml()
    t = text.encode("utf-8")
    if byte:
        t = fuzz(r, t)
    b.align()
    at = e5.log2phys(len(b.log))
    b.log += t
    n = (len(b.log) + e5.PAYLOAD - 1) // e5.PAYLOAD * e5.PAGE
    b.log[0:48] = e5.pack_header(length=n, xoff=at, xlen=len(t))
    return e5.seal(b.log)


# ------------------------------------------------------------------------------------------ programs

def open_program(rng, prof, k=25):
    seed = rng.randrange(1 << 60)

    def make(wd):
        r = random.Random(seed)
        cmds = []
        if prof == "header":
            vecs, phys = make_vectors(r, 600)
            files = header_mutants(r, phys)
            files = r.sample(files, min(len(files), k))
        else:
            files = [document(r, {"valid": 0, "one": 1, "few": r.randint(2, 4), "bytes": 0}[prof], prof == "bytes") for _ in range(k)]
        for j, data in enumerate(files):
            path = "%s/o%x_%d.e57" % (wd, seed, j)
            with open(path, "wb") as fp:
                fp.write(data)
            cmds.append(Cmd("x.all", dict(measure_file(data), op="@open"), path=path, hash=1, caps="1000", buf=int(r.random() < 0.1)))
        return cmds
    return make


def post_open(prog):
    evs = []
    for c in prog:
        if c.res["r"] != "ok":
            evs.append({"op": "setup", "cmd": c.op, "r": c.res["r"]})
            continue
        rs = [c.res["open"], c.res["rest"]] + [i["r"] for i in c.res["items"]]
        evs.append(dict(c.ev, op="open", r=c.res["open"], documented=all(x == "ok" or x.startswith("Error") for x in rs)))
    return evs


def vec_program(rng, per, limit=None):
    seed = rng.randrange(1 << 60)

    def make(wd):
        r = random.Random(seed)
        vecs, phys = make_vectors(r)
        todo = [(phys, i, None, v.n) for i, v in enumerate(vecs)] + vector_mutants(r, phys, vecs, per)
        if limit and len(todo) > limit:
            todo = todo[:1] + r.sample(todo[1:], limit)
        cmds = []
        for j, (data, vi, off, n) in enumerate(todo):
            path = "%s/v%x_%d.e57" % (wd, seed, j)
            with open(path, "wb") as fp:
                fp.write(data)
            if off is None:
                f = e5.File(data)
                off = int([k for k in f.root.kids if k.name == vecs[vi].name][0].attrs["fileOffset"])
            ev = {"op": "@vec", "vec": vecs[vi], "others": vecs[:vi] + vecs[vi + 1:], "s": measure_vec(data, vecs[vi], off, n)}
            cmds.append(Cmd("x.all", ev, path=path, hash=0, caps=r.choice(["1000", "1000", "7", "3,50"]), buf=int(r.random() < 0.1)))
        return cmds
    return make


def post_vec(prog):
    evs = []
    for c in prog:
        res, e = c.res, c.ev
        if res["r"] != "ok" or res["open"] != "ok":
            evs.append({"op": "setup", "cmd": c.op, "r": res["r"] if res["r"] != "ok" else "open " + res["open"]})
            continue
        items = {i["p"]: i for i in res["items"]}

        def judged(v):
            i = items["/" + v.name]
            good = True
            if i["n"]:
                for j in range(len(v.flds)):
                    m = min(i["n"], v.n, len(i["v"][j]))
                    good = good and i["v"][j][:m] == [v.text(j, q) for q in range(m)]
            return i, good
        i, good = judged(e["vec"])
        ok = all(judged(v)[0]["r"] == "ok" and judged(v)[1] for v in e["others"]) and all(x["r"] == "ok" for x in res["items"] if x["k"] == "blob")
        evs.append({"op": "vec", "s": e["s"], "r": i["r"], "n": pl.cl(i["n"]), "good": good, "others": ok})
    return evs


def check_p06(ck):
    exe = build("asan")
    ck.model("MC_Open", "MC_Open_deep.cfg" if ck.thorough else None)
    ck.model("MC_OpenVec", "MC_OpenVec_deep.cfg" if ck.thorough else None)
    r = ck.rng
    mul = 8 if ck.thorough else 1
    ck.conform(exe, "Trace_Open", [open_program(r, "header", 60) for _ in range(16 * mul)], "headers and sizes", post=post_open)
    docs = [open_program(r, "valid") for _ in range(8 * mul)] + [open_program(r, "one") for _ in range(80 * mul)]
    docs += [open_program(r, "few") for _ in range(40 * mul)] + [open_program(r, "bytes") for _ in range(24 * mul)]
    ck.conform(exe, "Trace_Open", docs, "documents", post=post_open)
    ck.conform(exe, "Trace_Open", [vec_program(r, 12) for _ in range(32 * mul)], "sections and packets", post=post_vec)
    return ck.finish("model_checking", "every field of header, section headers, packets and their XML attributes set to wrong values with valid checksums; "
                     "truncations and extensions; edits and byte-level mutations of generated XML documents")


CHECKS = {"P06": check_p06}

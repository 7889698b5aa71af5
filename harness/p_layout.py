"""P03 and P04: the bytes of files."""
import random
import struct

from core import Cmd, build, events_of, pct_out
import e57file as e5
import gen_transfer as g
from gen_tree import f32, hexd
from num import limbs

BIG = (1 << 31) - 1


def cl(v):
    return max(-BIG, min(v, BIG))


def big(v):
    """integer as the specification's <<sign, digits>>"""
    return [(v > 0) - (v < 0)] + limbs(abs(v))


def num(v):
    return {"s": (v > 0) - (v < 0), "m": limbs(abs(v)), "e": 0}


def value(kind, text):
    """a value as printed by the driver -> what the specification compares"""
    if kind == "int":
        return big(int(text))
    if kind == "f32":
        return list(struct.pack("<I", int(text)))
    if kind == "f64":
        return list(struct.pack("<Q", int(text)))
    return list(bytes.fromhex(text))


# ------------------------------------------------------------------------------------ measurement

def measure_packets(f, sec):
    out = []
    for p in f.packets(sec):
        q = dict(at=p["at"], t=p["type"], fl=p["flags"], len=p["len"], lens=p["lens"], bytes=p["bytes"], pad=p["pad"])
        if p["type"] == 0:
            q.update(entries=p["entries"], level=p["level"], recs=[[cl(a), cl(b)] for a, b in p["recs"]])
        out.append(q)
    return out


def describe(phys, vals, blobs):
    """the specification's file record; vals[path][leaf] and blobs[path] are the values it should stand for"""
    f = e5.File(phys)
    h = f.hdr or dict(sig="", major=0, minor=0, length=0, xoff=0, xlen=0, psize=0)
    ev = dict(size=len(phys), bad=f.bad, wf=f.root is not None,
              hdr={k: (v if isinstance(v, str) else cl(v)) for k, v in h.items()}, secs=[])
    if f.root is None:
        return f, ev
    for e in f.vectors():
        off, n = int(e.attrs.get("fileOffset", 0)), int(e.attrs.get("recordCount", 0))
        if off == 0 and n == 0 and e.path() not in vals:
            continue
        lv = e5.leaves([k for k in e.kids if k.name == "prototype"][0])
        s = f.section(off) or dict(at=0, id=-1, reserved=[1], len=0, doff=0, ioff=0)
        want = vals.get(e.path(), {})
        ev["secs"].append(dict(k="cv", path=e.path(), off=cl(off), id=s["id"], res=sum(s["reserved"]), len=cl(s["len"]), n=cl(n),
                               doff=cl(s["doff"]), ioff=cl(s["ioff"]),
                               leaves=[dict(kind=x.kind, lo=num(x.min), hi=num(x.max)) for x in lv],
                               paths=[x.path for x in lv],
                               pkts=measure_packets(f, s),
                               vals=[want.get(x.path, [[-9]]) for x in lv]))
    for e in f.blobs():
        off, n = int(e.attrs.get("fileOffset", 0)), int(e.attrs.get("length", 0))
        s = f.section(off) or dict(at=0, id=-1, reserved=[1], len=0)
        ev["secs"].append(dict(k="blob", path=e.path(), off=cl(off), id=s["id"], res=sum(s["reserved"]), len=cl(s["len"]), n=cl(n),
                               content=list(f.log[s["at"] + 16:s["at"] + 16 + n]), vals=blobs.get(e.path(), [-9])))
    return f, ev


def canon(text, single=False):
    if text is None or text.strip() == "":
        return ""
    d = float(text)
    return hexd(f32(d) if single and abs(d) < 3.5e38 else d)


def found(f):
    """elements of the XML in document order"""
    out = []

    def go(e, path):
        a = e.attrs
        t = a.get("type", "")
        single = a.get("precision") == "single"
        d = dict(p=pct_out(path), type=t, value="", min="", max="", scale="", offset="", prec=a.get("precision", ""),
                 hetero=a.get("allowHeterogeneousChildren", ""), len=a.get("length", ""), count=a.get("recordCount", ""))
        if t in ("Integer", "ScaledInteger"):
            d.update(value=e.text.strip(), min=a.get("minimum", ""), max=a.get("maximum", ""),
                     scale=canon(a.get("scale")), offset=canon(a.get("offset")))
        elif t == "Float":
            d.update(value=canon(e.text, single), min=canon(a.get("minimum"), single), max=canon(a.get("maximum"), single))
        elif t == "String":
            d.update(value=pct_out(e.text))
        out.append(d)
        for i, k in enumerate(e.kids):
            if t == "CompressedVector":
                go(k, path + "/@" + k.name)
            else:
                go(k, path + "/" + (str(i) if t == "Vector" else k.name))
    go(f.root, "")
    ns = [[k.partition(":")[2], v] for k, v in f.root.attrs.items() if k.split(":")[0] == "xmlns"]
    return out, ns


def post_written(prog):
    evs, vals, blobs, dump, exts = [], {}, {}, [], []
    for c in prog:
        e = c.ev
        if e is None or c.res["r"] != "ok":
            evs.append({"op": "setup", "cmd": c.op, "r": c.res["r"]})
        elif e["op"] == "@vals":
            vals.setdefault(e["v"], {})[e["leaf"]] = [value(e["kind"], x) for x in c.res["v"]]
        elif e["op"] == "@blob":
            b = blobs.setdefault(e["v"], [0] * e["len"])
            data = list(bytes.fromhex(c.res["v"]))
            b[e["start"]:e["end"]] = data[e["start"]:e["end"]]
        elif e["op"] == "@ext":
            exts.append([e["prefix"], e["uri"]])
        elif e["op"] == "@dump":
            dump = c.res["tree"]
        elif e["op"] == "@file":
            f, ev = describe(bytes.fromhex(c.res["v"]), vals, blobs)
            evs.append(dict(ev, op="written"))
            if f.root is not None:
                x, ns = found(f)
                for d in dump:
                    if d["type"] == "Float" and d["prec"] == "single":
                        for k in ("value", "min", "max"):
                            d[k] = canon(str(float.fromhex(d[k])), True)
                    elif d["type"] == "Float":
                        for k in ("value", "min", "max"):
                            d[k] = hexd(float.fromhex(d[k]))
                evs.append(dict(op="xml", found=x, api=dump, ns=ns, exts=exts))
    return evs


# --------------------------------------------------------------------------------- files to write

TEXT = ["", "a", " lead", "trail ", "<&>\"'", "]]>", "a]]>b", "é€𝄞", "x" * 300, "tab\tnl\nend", "-1", "]]", "<![CDATA[x]]>"]


def random_elements(r, cmds, k):
    """some elements beside the vectors"""
    parents = [("root", False, "")]
    for i in range(k):
        h = "e%d" % i
        p, isvec, ppre = r.choice(parents)
        t = r.choice(["Integer", "ScaledInteger", "Float", "String", "Structure", "Vector", "Integer", "Float"])
        if t == "Integer":
            lo, hi = g.int_range(r)
            a = dict(value=r.choice([lo, hi, r.randint(lo, hi)]))
            if r.random() < 0.7:
                a.update(min=lo, max=hi)
        elif t == "ScaledInteger":
            lo, hi = g.int_range(r)
            a = dict(value=r.choice([lo, hi, r.randint(lo, hi)]), min=lo, max=hi, scale=hexd(r.choice([1.0, 0.001, 1e-9, -3.5, 1e300])),
                     offset=hexd(r.choice([0.0, 0.1, -1e10])))
        elif t == "Float":
            single = r.random() < 0.4
            v = r.choice([0.0, 1.0, -0.1, 1e-30, 123456.789, 3.0e38, r.gauss(0, 1e5)])
            v = f32(v) if single else r.choice([v, 1e-300, 1.7e308])
            a = dict(value=hexd(v), prec="single" if single else "double")
            if r.random() < 0.4:
                a.update(min=hexd(v - abs(v)), max=hexd(v + abs(v)) if abs(v) < 1e38 else hexd(v))
                if single:
                    a.update(min=hexd(f32(min(v, 0))), max=hexd(f32(max(v, 0))))
        elif t == "String":
            a = dict(value=r.choice(TEXT))
        elif t == "Vector":
            a = dict(hetero=1 if r.random() < 0.8 else 0)
        else:
            a = {}
        cmds.append(Cmd("node.new", f="w", n=h, type=t, **a))
        if isvec:
            cmds.append(Cmd("node.append", n=p, c=h))
        else:
            nm = ("q:" if r.random() < 0.15 else "") + r.choice("xyz") + str(i)
            cmds.append(Cmd("node.set", n=p, path=nm, c=h))
        if t == "Structure" or (t == "Vector" and a["hetero"]):
            parents.append((h, t == "Vector", ""))


def written(rng, prof):
    seed = rng.randrange(1 << 60)

    def make(wd):
        r = random.Random(seed)
        path = "%s/w%x.e57" % (wd, seed)
        cmds = [Cmd("imf.open", f="w", path=path, mode="w"), Cmd("imf.root", f="w", n="root"),
                Cmd("ext.add", {"op": "@ext", "prefix": "q", "uri": "urn:q"}, f="w", prefix="q", uri="urn:q")]
        random_elements(r, cmds, r.choice([0, 0, 3, 8]))
        vecs, nb = [], [0]

        def blob():
            nb[0] += 1
            ln = r.choice([0, 1, 3, 4, 16, 100, 963, 964, 965, 1004, 1019, 1020, 1021, 2040, 3000])
            h = "blob%d" % nb[0]
            p = "bl%d" % nb[0]
            cmds.append(Cmd("node.new", f="w", n=h, type="Blob", len=ln))
            cmds.append(Cmd("node.set", n="root", path=p, c=h))
            cmds.append(Cmd("blob.bytes", {"op": "@blob", "v": "/" + p, "start": 0, "end": 0, "len": ln}, n=1, tag=1))
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                if ln:
                    a = r.randrange(ln)
                    b = r.randint(a + 1, ln)
                    if r.random() < 0.6:
                        a, b = 0, ln
                    tag = r.randint(1, 200)
                    cmds.append(Cmd("blob.write", n=h, start=a, count=b - a, tag=tag))
                    cmds.append(Cmd("blob.bytes", {"op": "@blob", "v": "/" + p, "start": a, "end": b, "len": ln}, n=ln, tag=tag))
        for k in range(prof["nvec"](r)):
            v = "v%d" % (k + 1)
            pr = g.Proto(r, "w", v, prof["nleaves"](r), prof.get("depth", lambda q: q.choice([0, 1, 2]))(r), prof.get("kinds"),
                         prof.get("bits"), prof.get("strlen"))
            ids = {}
            for j, lf in enumerate(pr.leaves):
                ids[lf.path] = "%sf%d" % (v, j)
                cmds.append(Cmd("fld", id=ids[lf.path], path=lf.path, kind=lf.kind, min=lf.min, max=lf.max,
                                seed=r.randrange(1 << 40), maxlen=lf.maxlen, mode=0))
            per = sum(lf.est() for lf in pr.leaves) / 8 + 0.01
            n = int(min(prof["nrec"](r), prof.get("maxbytes", 20000) / per))
            vecs.append((v, pr, ids, n))
        r.shuffle(vecs)
        for v, pr, ids, n in vecs:
            if r.random() < 0.3:
                blob()
            cmds.extend(pr.cmds)
            cmds.append(Cmd("node.new", f="w", n=v + "cod", type="Vector", hetero=1))
            cmds.append(Cmd("node.new", f="w", n=v, type="CompressedVector", proto=pr.root, codecs=v + "cod"))
            cmds.append(Cmd("node.set", n="root", path="vec" + v, c=v))
        r.shuffle(vecs)
        for v, pr, ids, n in vecs:
            if n == 0 and r.random() < 0.3:
                continue
            tmp = []
            g._write(tmp, r, prof, v, pr, ids, n)
            for c in tmp:
                c.ev = None
            cmds.extend(tmp)
            for lf in pr.leaves:
                cmds.append(Cmd("fld.values", {"op": "@vals", "v": "/vec" + v, "leaf": lf.path, "kind": lf.kind}, id=ids[lf.path], n=n, **{"from": 0}))
            if r.random() < 0.3:
                blob()
        cmds.append(Cmd("node.dump", {"op": "@dump"}, n="root"))
        cmds.append(Cmd("imf.close", f="w"))
        cmds.append(Cmd("node.dropall"))
        cmds.append(Cmd("imf.drop", f="w"))
        cmds.append(Cmd("file.get", {"op": "@file"}, path=path))
        return cmds
    return make


SMALL = dict(nvec=lambda r: r.choice([0, 1, 1, 2, 3]), nleaves=lambda r: r.choice([1, 2, 3, 5, 8]),
             nrec=lambda r: r.choice([0, 1, 2, 7, 8, 9, 49, 50, 51, 100, 150, r.randint(1, 200), r.randint(1, 400)]), maxbytes=6000,
             wcap=lambda r, n: r.choice([1, 7, 50, 64, 200, n + 1]) if n < 400 else r.choice([100, 1000, n, n + 9]))
WIDE = dict(SMALL, nvec=lambda r: 1, maxbytes=200000, nleaves=lambda r: r.choice([1, 2, 4]), nrec=lambda r: r.choice([3000, 9000]))
STR = dict(SMALL, nvec=lambda r: 1, nleaves=lambda r: r.choice([1, 2]), kinds=["str"], nrec=lambda r: r.choice([1, 3, 20, 80]), maxbytes=20000)


def check_p03(ck):
    exe = build("asan")
    ck.model("MC_Layout", "MC_Layout_deep.cfg" if ck.thorough else None)
    r = ck.rng
    mul = 8 if ck.thorough else 1
    progs = [written(r, SMALL) for _ in range(300 * mul)]
    progs += [written(r, STR) for _ in range(40 * mul)]
    for n in (126, 127, 128, 129, 16383, 16384, 65530, 70000):
        progs.append(written(r, dict(STR, strlen=n, nrec=lambda q: 3, maxbytes=1 << 22)))
    for b in range(65):
        for k in ("int", "sint"):
            for nrec in (9, 70):
                progs.append(written(r, dict(SMALL, nvec=lambda q: 1, nleaves=lambda q: 1, kinds=[k], bits=(lambda q, b=b: b), nrec=(lambda q, nrec=nrec: nrec))))
    progs += [written(r, WIDE) for _ in range(16 * mul)]
    for n in (20, 70, 300):
        progs += [written(r, dict(SMALL, nvec=lambda q: 1, nleaves=(lambda q, n=n: n), nrec=lambda q: q.choice([1, 9, 30]), maxbytes=80000,
                                  kinds=["int"] * 6 + ["sint", "f32", "f64"])) for _ in range(2 * mul)]
    ck.conform(exe, "Trace_Layout", progs, "written files", post=post_written)
    if ck.thorough:
        ck.conform(build("crazy"), "Trace_Layout", [written(r, SMALL) for _ in range(400)], "odd packets", post=post_written)
    return ck.finish("model_checking", "files written by random programs, every integer width, string lengths around the prefix limits, "
                     "several sections per file; all bytes of header, sections, packets and XML are judged")


# ---------------------------------------------------------------------------------- files to read

# both zeros, numbers around the smallest normal one, the largest
F32 = [s | b for s in (0, 1 << 31) for b in (0, 1, 0x7fffff, 0x800000, 0x3f800000, 0x7f7fffff)]
F64 = [s | b for s in (0, 1 << 63) for b in (0, 1, (1 << 52) - 1, 1 << 52, 0x3ff << 52, (0x7ff << 52) - 1)]


def random_values(r, kind, lo, hi, n, maxlen):
    out = []
    for _ in range(n):
        if kind == "int":
            out.append(r.choice([lo, hi, r.randint(lo, hi), r.randint(lo, hi)]))
        elif kind == "f32":
            out.append(r.choice([struct.unpack("<I", struct.pack("<f", r.gauss(0, 1000)))[0], r.randrange(0x7f800000) | r.choice([0, 1 << 31])] + F32))
        elif kind == "f64":
            out.append(r.choice([struct.unpack("<Q", struct.pack("<d", r.gauss(0, 1000)))[0], r.randrange(0x7ff << 52) | r.choice([0, 1 << 63])] + F64))
        else:
            lo, hi = r.choice([(32, 126), (0, 255), (0, 1)])
            out.append(bytes(r.randint(lo, hi) for _ in range(r.choice([0, 1, maxlen, r.randint(0, maxlen)]))))
    return out


def spec_value(kind, v):
    return big(v) if kind == "int" else list(struct.pack("<I", v)) if kind == "f32" else list(struct.pack("<Q", v)) if kind == "f64" else list(v)


class Fld:
    def __init__(self, path, kind, lo=0, hi=0, scaled=False):
        self.path, self.kind, self.lo, self.hi, self.scaled = path, kind, lo, hi, scaled

    def xml(self, name):
        if self.kind == "int":
            t = "ScaledInteger" if self.scaled else "Integer"
            a = ""
            if self.lo != g.I64MIN:
                a += ' minimum="%d"' % self.lo
            if self.hi != g.I64MAX:
                a += ' maximum="%d"' % self.hi
            if self.scaled:
                a += ' scale="0.001" offset="-3"'
            return '<%s type="%s"%s>%d</%s>' % (name, t, a, self.lo, name)
        if self.kind == "str":
            return '<%s type="String"/>' % name
        return '<%s type="Float"%s/>' % (name, ' precision="single"' if self.kind == "f32" else "")


def random_fields(r, n, kinds=None, bits=None):
    """fields below nested structures and vectors: (prototype XML, fields in bytestream order)"""
    flds = []

    def fill(path, n, depth, vec):
        x, i = "", 0
        while n:
            name = "vectorChild" if vec else "c%d" % i
            p = path + (str(i) if vec else name)
            i += 1
            if depth and n > 1 and r.random() < 0.3:
                k = r.randint(1, n)
                v = r.random() < 0.5
                x += '<%s type="%s">' % (name, 'Vector" allowHeterogeneousChildren="1' if v else "Structure")
                x += fill(p + "/", k, depth - 1, v) + "</%s>" % name
                n -= k
            else:
                kind = r.choice(kinds or ["int", "int", "int", "f32", "f64", "str"])
                lo, hi = g.int_range(r, bits() if bits else None) if kind == "int" else (0, 0)
                flds.append(Fld(p, kind, lo, hi, r.random() < 0.3))
                x += flds[-1].xml(name)
                n -= 1
        return x
    return fill("", n, 2, False), flds


def cut(r, stream, k, style):
    """divide a bytestream into k pieces"""
    n = len(stream)
    if style == "early":
        at = sorted(r.randint(0, n) for _ in range(max(0, k // 3 - 1))) + [n] * (k - max(0, k // 3 - 1) - 1)
    elif style == "late":
        m = max(0, k // 3 - 1)
        at = [0] * (k - m - 1) + sorted(r.randint(0, n) for _ in range(m))
    elif style == "drip":
        at = [min(n, i + 1) for i in range(k - 1)]
    else:
        at = sorted(r.choice([0, n, r.randint(0, n), r.randint(0, n), r.randint(0, n)]) for _ in range(k - 1))
    at = [0] + at + [n]
    return [stream[a:b] for a, b in zip(at, at[1:])]


def full(r, streams):
    """pieces for packets of exactly 64 KiB, as long as there are enough bytes"""
    left, pieces = list(streams), [[] for _ in streams]
    while any(left):
        room = 65536 - 6 - 2 * len(streams)
        order = list(range(len(streams)))
        r.shuffle(order)
        for i in order:
            k = min(room, len(left[i]))
            pieces[i].append(left[i][:k])
            left[i] = left[i][k:]
            room -= k
    return pieces if pieces[0] else [[b""] for _ in streams]


def assemble(r, streams, pieces, extra):
    """data packets from pieces[field][packet], with other packets between them"""
    out = []
    npk = max(len(p) for p in pieces)
    index = None
    if extra and r.random() < 0.1:
        out.append(e5.empty_packet(r.choice([4, 8, 1000])))
    first = len(out)
    if extra and r.random() < 0.3:
        index = len(out)
        first += 1
        out.append((32, lambda st, f=first: e5.index_packet([(0, e5.log2phys(st[f]))])))
    for i in range(npk):
        out.append(e5.data_packet([p[i] for p in pieces], flags=1 if extra and r.random() < 0.1 else 0))
        for _ in range(r.choice([0, 0, 1, 1, 2]) if extra else 0):
            if r.random() < 0.5:
                out.append(e5.empty_packet(r.choice([4, 8, 12, 100, 1000] + ([65536, 65532] if r.random() < 0.1 else []))))
            else:
                if index is None:
                    index = len(out)
                out.append((32, lambda st, f=first: e5.index_packet([(0, e5.log2phys(st[f]))])))
    if index is None and r.random() < 0.8:
        index = len(out)
        out.append((32, lambda st, f=first: e5.index_packet([(0, e5.log2phys(st[f]))])))
    return out, index


def assemble_chunks(r, kinds, data, bounds):
    """packets of chunks (all fields begin anew at a record), with index packets of several entries and levels"""
    n = len(data[0])
    at = [0]
    while at[-1] < n:
        at.append(min(n, at[-1] + 8 * r.randint(1, 4)))
    out, starts = [], []
    early = r.random() < 0.5
    for a, b in zip(at, at[1:]):
        enc = [e5.encode(k, d[a:b], lo, hi) for k, d, (lo, hi) in zip(kinds, data, bounds)]
        m = r.choice([1, 1, 2, 3])
        pieces = [cut(r, s, m, "any") for s in enc]
        starts.append((a, len(out)))
        for i in range(m):
            out.append(e5.data_packet([p[i] for p in pieces]))
            if r.random() < 0.15:
                out.append(e5.empty_packet(r.choice([4, 8, 100])))
    groups, i = [], 0
    while i < len(starts):
        k = r.choice([1, 2, 3, 5, 40])
        groups.append(starts[i:i + k])
        i += k
    # positions of packets move when index packets go in front of them
    nidx = len(groups) + (1 if len(groups) > 1 else 0)
    shift = nidx if early else 0
    base = 0 if early else len(out)
    idx = []
    for gr in groups:
        idx.append((16 + 16 * len(gr), lambda st, gr=gr: e5.index_packet([(a, e5.log2phys(st[p + shift])) for a, p in gr])))
    if len(groups) > 1:
        idx.append((16 + 16 * len(groups), lambda st: e5.index_packet([(gr[0][0], e5.log2phys(st[base + j])) for j, gr in enumerate(groups)], 1)))
    return (idx + out, nidx - 1) if early else (out + idx, len(out) + nidx - 1)


def file_of(r, vecs, blobs, xml_first=False, gaps=True, far=None):
    """vecs: [(name, prototype XML, fields, values, packets, index position)]"""
    b = e5.Builder(far)
    if xml_first:
        b.reserve_xml(sum(len(v[1]) + 400 for v in vecs) + 200 * len(blobs) + 400)
    todo = [("v", v) for v in vecs] + [("b", x) for x in blobs]
    r.shuffle(todo)
    for t, x in todo:
        if gaps and r.random() < 0.5:
            b.skip(r.choice([1, 4, 100, 900, 960, 984, 988, 1000, 1019, 1020, 1024, 2000]))
        if t == "v":
            b.vector(x[0], x[4], x[5])
        else:
            b.blob(x[0], x[1])

    def text(pos):
        s = ""
        for v in vecs:
            s += '<%s type="CompressedVector" fileOffset="%d" recordCount="%d"><prototype type="Structure">%s</prototype>' % (v[0], pos[v[0]], v[6], v[1])
            s += '<codecs type="Vector" allowHeterogeneousChildren="1"/></%s>\n' % v[0]
        for x in blobs:
            s += '<%s type="Blob" fileOffset="%d" length="%d"/>\n' % (x[0], pos[x[0]], len(x[1]))
        return e5.doc(s)
    return b.finish(text)


def reads(r, wd, name, phys, vals, blobs, schedules, nleaves, far=None):
    """commands that read a file with several schedules; far: (its bytes, number of pages left out after the first one)"""
    path = "%s/%s.e57" % (wd, name)
    with open(path, "wb") as fp:
        if far:
            fp.write(far[0][:e5.PAGE])
            fp.seek((1 + far[1]) * e5.PAGE)
            fp.write(far[0][e5.PAGE:])
        else:
            fp.write(phys)
    cmds = []
    for caps, fresh, only, buf, policy in schedules:
        cmds.append(Cmd("x.all", {"op": "@all", "path": path}, path=path, caps=",".join(map(str, caps)), fresh=fresh,
                        only=",".join(map(str, only)), buf=buf, policy=policy))
    cmds[0].ev["phys"], cmds[0].ev["vals"], cmds[0].ev["blobs"] = phys, vals, blobs
    return cmds


def post_read(prog):
    evs, cur = [], None
    for c in prog:
        e = c.ev
        if e is None or c.res["r"] != "ok":
            evs.append({"op": "setup", "cmd": c.op, "r": c.res["r"]})
            continue
        if "phys" in e:
            _, cur = describe(e["phys"], e["vals"], e["blobs"])
            evs.append(dict(cur, op="layout"))
        evs.append({"op": "open", "r": c.res["open"] if c.res["open"] != "ok" else c.res["rest"]})
        where = {s["path"]: i for i, s in enumerate(cur["secs"])}
        for it in c.res["items"]:
            sec = where.get(it["p"].replace("%3a", ":"), None)
            if sec is None:
                evs.append({"op": "unknown", "r": it["p"]})
            elif it["k"] == "blob":
                evs.append({"op": "readblob", "sec": sec + 1, "r": it["r"], "v": list(bytes.fromhex(it.get("v", "")))})
            elif it["r"] != "ok":
                evs.append({"op": "readvec", "sec": sec + 1, "r": it["r"], "cols": [], "calls": [], "v": []})
            else:
                s = cur["secs"][sec]
                cols = [s["paths"].index(p) for p in it["cols"]]
                evs.append({"op": "readvec", "sec": sec + 1, "r": "ok", "cols": [k + 1 for k in cols], "calls": it["calls"],
                            "v": [[value(s["leaves"][k]["kind"], t) for t in col] for k, col in zip(cols, it["v"])]})
        if len(c.res["items"]) != len(cur["secs"]):
            evs.append({"op": "missing", "r": "sections"})
    return evs


def schedule(r, nleaves, n, few=False):
    caps = r.choice([[n + 1], [n], [1], [2, 3], [3], [7], [max(1, n // 2)], [max(1, n - 1)], [1, n + 5], [r.randint(1, n + 1) for _ in range(4)]])
    if n > 60:
        caps = [max(5, c) for c in caps]
    only = []
    if r.random() < 0.4:
        only = r.sample(range(nleaves), r.randint(1, nleaves))
    return caps, r.randint(0, 1), only, int(r.random() < 0.2), r.choice([100, 100, 50, 0])


def random_file(rng, nleaves, nrec, npk, kinds=None, bits=None, styles=("any",), nscheds=3, maxlen=20, nvec=1, far=None):
    seed = rng.randrange(1 << 60)

    def make(wd):
        r = random.Random(seed)
        vecs, vals, blobs = [], {}, []
        width, most = 64, 0
        for k in range(nvec(r) if callable(nvec) else nvec):
            px, flds = random_fields(r, nleaves(r), kinds, bits)
            n = nrec(r)
            data = [random_values(r, f.kind, f.lo, f.hi, n, maxlen) for f in flds]
            streams = [e5.encode(f.kind, d, f.lo, f.hi) for f, d in zip(flds, data)]
            name = "vec%d" % k
            vals["/" + name] = {f.path: [spec_value(f.kind, v) for v in d] for f, d in zip(flds, data)}
            width, most = min(width, len(flds)), max(most, n)
            if npk is None:
                pk, idx = assemble_chunks(r, [f.kind for f in flds], data, [(f.lo, f.hi) for f in flds])
                vecs.append((name, px, flds, data, pk, idx, n))
                continue
            m = npk(r)
            if m == 0:
                pk, idx = assemble(r, streams, full(r, streams), r.random() < 0.7)
                vecs.append((name, px, flds, data, pk, idx, n))
                continue
            # no packet may exceed 64 KiB
            m = max(m, sum(map(len, streams)) // 20000 + 1)
            pieces = [cut(r, s, m, r.choice(styles)) for s in streams]
            while max(sum(len(p[i]) for p in pieces) for i in range(m)) > 60000:
                pieces = [cut(r, s, m, "any") for s in streams]
            pk, idx = assemble(r, streams, pieces, r.random() < 0.7)
            vecs.append((name, px, flds, data, pk, idx, n))
        bl = [("blob%d" % i, bytes(r.randrange(256) for _ in range(r.choice([0, 1, 5, 100, 1004, 1500])))) for i in range(r.choice([0, 0, 1, 2]))]
        first = r.random() < 0.3
        sch = [schedule(r, width, most) for _ in range(nscheds)]
        if far:
            # the specification judges the file without the hole, the code reads the one with it
            state = r.getstate()
            phys = file_of(r, vecs, bl, first, far=0)
            r.setstate(state)
            sch = [x[:3] + (0,) + x[4:] for x in sch]
            return reads(r, wd, "f%x" % seed, phys, vals, {"/" + n: list(d) for n, d in bl}, sch, width, (file_of(r, vecs, bl, first, far=far), far))
        phys = file_of(r, vecs, bl, first)
        return reads(r, wd, "f%x" % seed, phys, vals, {"/" + n: list(d) for n, d in bl}, sch, width)
    return make


def small_divisions(rng):
    """every division of two short bytestreams into three packets"""
    out = []
    shapes = [([("int", 0, 30, [30, 1, 17])], [("int", 0, 3, [3, 0, 2])]),
              ([("int", -4, 507, [507, -4, 100])], [("str", 0, 0, [b"a", b""])]),
              ([("f32", 0, 0, [0x40490FDB])], [("int", 5, 5, [5])]),
              ([("int", 0, 1, [1, 0])], [("str", 0, 0, [b"", b"xy"])])]

    def parts(n, k):
        if k == 1:
            yield [n]
            return
        for a in range(n + 1):
            for rest in parts(n - a, k - 1):
                yield [a] + rest
    for sh in shapes:
        flds, data = [], []
        for i, group in enumerate(sh):
            kind, lo, hi, d = group[0]
            flds.append(Fld("c%d" % i, kind, lo, hi))
            data.append(d)
        n = min(len(d) for d in data)
        data = [d[:n] for d in data]
        px = "".join(f.xml("c%d" % i) for i, f in enumerate(flds))
        streams = [e5.encode(f.kind, d, f.lo, f.hi) for f, d in zip(flds, data)]
        for a in parts(len(streams[0]), 3):
            for b in parts(len(streams[1]), 3):
                pieces = []
                for s, q in ((streams[0], a), (streams[1], b)):
                    pieces.append([s[:q[0]], s[q[0]:q[0] + q[1]], s[q[0] + q[1]:]])
                out.append((flds, data, px, pieces, n))
    progs = []
    for i in range(0, len(out), 4):
        group = out[i:i + 4]
        seed = rng.randrange(1 << 60)

        def make(wd, group=group, seed=seed):
            r = random.Random(seed)
            vecs, vals = [], {}
            for k, (flds, data, px, pieces, n) in enumerate(group):
                pk, idx = assemble(r, None, pieces, r.random() < 0.5)
                vecs.append(("vec%d" % k, px, flds, data, pk, idx, n))
                vals["/vec%d" % k] = {f.path: [spec_value(f.kind, v) for v in d] for f, d in zip(flds, data)}
            phys = file_of(r, vecs, [], False, False)
            sch = [([1], 0, [], 0, 100), ([2], 1, [], 0, 100), ([4], 0, [], 0, 100), ([1, 2], 1, [1], 0, 100), ([3], 1, [1, 0], 1, 100)]
            return reads(r, wd, "d%x" % seed, phys, vals, {}, sch, 2)
        progs.append(make)
    return progs


def check_p04(ck):
    exe = build("asan")
    ck.model("MC_Packets", "MC_Packets_deep.cfg" if ck.thorough else None)
    ck.model("MC_Layout")
    r = ck.rng
    mul = 8 if ck.thorough else 1
    few = lambda q: q.choice([1, 2, 3, 5, 20])
    progs = small_divisions(r)
    # anything
    progs += [random_file(r, lambda q: q.choice([1, 2, 3, 5]), lambda q: q.choice([0, 1, 2, 5, 9, 30, 70, 130]), few,
                          styles=("any", "any", "early", "late", "drip"), nvec=lambda q: q.choice([1, 1, 2, 3])) for _ in range(250 * mul)]
    # fields far apart: more packets between their positions than the reader can keep
    progs += [random_file(r, lambda q: q.choice([2, 3, 4]), lambda q: q.choice([40, 120]), lambda q: q.choice([40, 70, 110]),
                          styles=("early", "late")) for _ in range(24 * mul)]
    # chunks with an index of several entries and levels
    progs += [random_file(r, lambda q: q.choice([1, 2, 3, 5]), lambda q: q.choice([1, 9, 30, 70, 200]), None) for _ in range(40 * mul)]
    # sections beyond 2 GiB, 4 GiB and more, in files with a hole
    for d in ((1 << 31) // 1024 - 2, (1 << 31) // 1020 + 1, (1 << 32) // 1024 - 3, (1 << 32) // 1024 + 5, (1 << 32) // 1020 + 1, (1 << 33) // 1024 + 4, (1 << 42) // 1024):
        progs += [random_file(r, lambda q: q.choice([1, 2, 3]), lambda q: q.choice([9, 130]), few, nvec=lambda q: q.choice([1, 2]), far=d) for _ in range(2 * mul)]
    # every width, straddling packets
    for b in range(65):
        progs.append(random_file(r, lambda q: 1, lambda q: 17, lambda q: 9, kinds=["int"], bits=(lambda b=b: b), styles=("any", "drip")))
    # large packets, long strings
    progs += [random_file(r, lambda q: q.choice([1, 2]), lambda q: q.choice([3000, 6000]), lambda q: q.choice([1, 3]), kinds=["int", "f32"], nscheds=2)
              for _ in range(6 * mul)]
    # packets of the largest size
    progs += [random_file(r, lambda q: q.choice([1, 2, 3]), lambda q: q.choice([9000, 17000]), lambda q: 0, kinds=["int", "f32", "f64"], nscheds=1)
              for _ in range(4 * mul)]
    progs += [random_file(r, lambda q: q.choice([1, 2]), lambda q: 4, lambda q: 0, kinds=["str"], maxlen=n, nscheds=2) for n in (66000, 140000)]
    for n in (127, 128, 200, 5000, 30000, 70000):
        progs.append(random_file(r, lambda q: 1, lambda q: 4, lambda q: 5, kinds=["str"], maxlen=n, nscheds=2))
    ck.conform(exe, "Trace_Layout", progs, "files to read", post=post_read)
    return ck.finish("model_checking", "every division of short bytestreams into three packets and random divisions, index and ignored packets, "
                     "section orders and gaps; each file read with several block sizes and column subsets")


CHECKS = {"P03": check_p03, "P04": check_p04}

"""Programs of tree operations (input selection only; TLC is the oracle)."""
import math
import struct

from core import Cmd, events_of, pct_out

I64MIN, I64MAX = -(1 << 63), (1 << 63) - 1
DBL_MAX = 1.7976931348623157e308
FLT_MAX = 3.4028234663852886e38


def hexd(d):
    """glibc's %a; zero has no sign here, the format does not keep it"""
    if d == 0:
        return "0x0p+0"
    if math.isnan(d):
        return "nan"
    h = float(d).hex()
    if "p" not in h:
        return h
    m, e = h.split("p")
    if "." in m:
        m = m.rstrip("0").rstrip(".")
    return m + "p" + e


def f32(d):
    return struct.unpack("<f", struct.pack("<f", d))[0]


# ---- node constructions: (arguments, attribute list, type key)

def integer(value, lo=None, hi=None):
    a = dict(value=value)
    if lo is not None:
        a.update(min=lo, max=hi)
    lo2, hi2 = (I64MIN, I64MAX) if lo is None else (lo, hi)
    return "Integer", a, ["Integer", str(value), str(lo2), str(hi2)], "%d:%d" % (lo2, hi2)


def scaled(value, lo, hi, scale=1.0, offset=0.0):
    return ("ScaledInteger", dict(value=value, min=lo, max=hi, scale=hexd(scale), offset=hexd(offset)),
            ["ScaledInteger", str(value), str(lo), str(hi), hexd(scale), hexd(offset)],
            "%d:%d:%s:%s" % (lo, hi, hexd(scale), hexd(offset)))


def real(value, prec="double", lo=None, hi=None):
    a = dict(value=hexd(value), prec=prec)
    if lo is not None:
        a.update(min=hexd(lo), max=hexd(hi))
    m = DBL_MAX if prec == "double" else FLT_MAX
    lo2, hi2 = (-m, m) if lo is None else (max(lo, -m), min(hi, m))
    return "Float", a, ["Float", prec, hexd(value), hexd(lo2), hexd(hi2)], "%s:%s:%s" % (prec, hexd(lo2), hexd(hi2))


def string(value):
    return "String", dict(value=value), ["String", pct_out(value)], ""


def blob(n):
    return "Blob", dict(len=n), ["Blob", str(n)], str(n)


def structure():
    return "Structure", {}, ["Structure"], ""


def vector(hetero):
    return "Vector", dict(hetero=int(hetero)), ["Vector", "yes" if hetero else "no"], ""


def new(f, n, spec):
    t, args, at, key = spec
    return Cmd("node.new", ev=dict(op="new", f=f, n=n, type=t, hetero=bool(args.get("hetero", 0)), key=key, at=at),
               f=f, n=n, type=t, **args)


def new_cv(f, n, p, c):
    return Cmd("node.new", ev=dict(op="newcv", f=f, n=n, proto=p, codecs=c), f=f, n=n, type="CompressedVector", proto=p, codecs=c)


# ---- paths

class Path:
    """abs flag and fields (text, class, prefix)"""

    def __init__(self, fields, absolute=False):
        self.abs, self.fields = absolute, fields

    def text(self):
        return ("/" if self.abs else "") + "/".join(f[0] for f in self.fields)

    def ev(self):
        return dict(abs=self.abs, fs=[dict(s=pct_out(f[0]), k=f[1], p=f[2]) for f in self.fields])


def fid(s):
    if s == "":
        return (s, "empty", "")
    if s.isdigit() and s.isascii():
        return (s, "num", "")
    if ":" in s:
        return (s, "ext", s.split(":")[0])
    return (s, "id", "")


BAD = [("1a", "bad", ""), ("-x", "bad", ""), ("a b", "bad", ""), (":a", "bad", ""), ("a:", "bad", ""), ("a:b:c", "bad", ""),
       (".x", "bad", ""), ("a$", "bad", ""), ("e:1", "bad", "e"), ("a\\b", "bad", "")]


def path(text, absolute=None):
    """Path of well-formed text"""
    if text.startswith("/"):
        t = text[1:]
        return Path([fid(x) for x in t.split("/")] if t else [], True)
    return Path([fid(x) for x in text.split("/")] if text else [], False)


def set_(n, p, c):
    return Cmd("node.set", ev=dict(op="set", n=n, c=c, **p.ev()), n=n, path=p.text(), c=c)


def append(n, c):
    return Cmd("node.append", ev=dict(op="append", n=n, c=c), n=n, c=c)


def get(n, p):
    return Cmd("node.get", ev=dict(op="get", n=n, **p.ev()), n=n, path=p.text())


def is_defined(n, p):
    return Cmd("node.isDefined", ev=dict(op="isDefined", n=n, **p.ev()), n=n, path=p.text())


def get_index(n, i):
    ev = dict(op="getIndex", n=n, i=max(-(1 << 30), min(i, 1 << 30)))
    return Cmd("node.getIndex", ev=ev, n=n, i=i)


def forest():
    return Cmd("node.forest", ev=dict(op="forest"))


def attrs(n):
    return Cmd("node.attrs", ev=dict(op="attrs", n=n), n=n)


def open_w(f, path_):
    return [Cmd("imf.open", ev=dict(op="open", f=f, mode="w", root=f + "R"), f=f, path=path_, mode="w"),
            Cmd("imf.root", f=f, n=f + "R")]


def ext(f, prefix, uri):
    return Cmd("ext.add", ev=dict(op="ext", f=f, prefix=pct_out(prefix), uri=pct_out(uri)), f=f, prefix=prefix, uri=uri)


def close(f):
    return Cmd("imf.close", ev=dict(op="closeFile", f=f), f=f)


def at_of(res):
    """Attribute list as the specification knows it, from the driver's record"""
    t = res.get("type")
    order = {"Integer": ["value", "min", "max"], "ScaledInteger": ["value", "min", "max", "scale", "offset"],
             "Float": ["prec", "value", "min", "max"], "String": ["value"], "Blob": ["len"], "Structure": ["count"],
             "Vector": ["hetero", "count"], "CompressedVector": ["count"]}[t]
    return [t] + [str(res.get(k)).replace("-0x0p+0", "0x0p+0") for k in order]


def tree_events(prog):
    evs = []
    for c, e in zip(prog, events_of(prog)):
        if e["op"] == "attrs" and e["r"] == "ok":
            at = at_of(e)
            e = dict(op="attrs", n=e["n"], r="ok", at=at)
        elif e["op"] in ("saved", "live") and e["r"] == "ok":
            e = dict(e, tree=[dict(p=x["p"], name=x["name"], at=at_of(x)) for x in e["tree"]])
        evs.append(e)
    return evs


# ---- random programs (P08, P09)

NAMES = ["a", "b", "c", "a1", "long_name-1.x", "e:a", "u:b", "é"]


def leaf_spec(rng):
    return rng.choice([lambda: integer(rng.randint(0, 3), 0, rng.choice([3, 3, 7])), lambda: integer(5), lambda: scaled(1, 0, rng.choice([5, 5, 9]), rng.choice([1.0, 0.5]), rng.choice([0.0, 1.0])),
                       lambda: real(rng.choice([0.0, 1.5]), rng.choice(["single", "double"])), lambda: real(1.0, "double", 0.0, rng.choice([2.0, 3.0])),
                       lambda: string(rng.choice(["", "x"])), lambda: blob(rng.choice([0, 4]))])()


class Sim:
    """Rough bookkeeping so that many operations succeed (not an oracle)"""

    def __init__(self):
        self.type, self.kids, self.parent, self.file, self.used = {}, {}, {}, {}, set()

    def add(self, n, t, f):
        self.type[n], self.kids[n], self.parent[n], self.file[n] = t, {}, None, f

    def root(self, n):
        while self.parent[n]:
            n = self.parent[n]
        return n

    def has_cv(self, n):
        return self.type[n] == "CompressedVector" or any(self.has_cv(k) for k in self.kids[n].values())

    def misuse(self, n, c):
        """using prototype trees for something else, or vectors in prototypes: documented preconditions"""
        return c in self.used or (self.root(n) in self.used and self.has_cv(c))

    def find(self, n, p):
        m = self.root(n) if p.abs else n
        for f in p.fields:
            if m is None:
                return None
            m = self.kids[m].get(f[0])
        return m

    def link(self, m, s, c):
        if m is None or s in self.kids[m] or self.parent.get(c) or self.root(m) == c or self.type[m] not in ("Structure", "Vector"):
            return
        if self.file[m] != self.file[c]:
            return
        self.kids[m][s] = c
        self.parent[c] = m


def tree_program(rng, nops, nfiles=2, readonly=False):
    def prog(wd, seed=rng.random()):
        import random
        r = random.Random(seed)
        return _tree_program(r, wd, nops, nfiles)
    return prog


def _random_path(r, sim, n):
    absolute = r.random() < 0.3
    m = sim.root(n) if absolute else n
    fields = []
    # walk down existing children for a while, then maybe a new name
    while sim.kids[m] and r.random() < 0.75:
        s = r.choice(sorted(sim.kids[m]))
        fields.append(fid(s))
        m = sim.kids[m][s]
    x = r.random()
    if x < 0.75 or not fields:
        if sim.type[m] == "Vector" and r.random() < 0.8:
            fields.append(fid(str(len(sim.kids[m]) + r.choice([0, 0, 0, 1, -1]))) if len(sim.kids[m]) else fid("0"))
        else:
            fields.append(fid(r.choice(NAMES)))
    if r.random() < 0.05:
        fields.append(fid(r.choice(NAMES)))
    if r.random() < 0.04:
        fields.insert(r.randint(0, len(fields)), r.choice(BAD))
    if r.random() < 0.03:
        fields.append(("", "empty", ""))
    if r.random() < 0.02 and (absolute or len(fields) > 1):
        fields.insert(r.randint(0 if absolute else 1, len(fields) - 1), ("", "empty", ""))
    if r.random() < 0.02:
        fields = []
    if fields == [("", "empty", "")]:
        fields = []
    return Path(fields, absolute)


def _tree_program(r, wd, nops, nfiles):
    sim = Sim()
    cmds = []
    files = ["f", "g"][:nfiles]
    for f in files:
        cmds += open_w(f, "%s/%s.e57" % (wd, f))
        sim.add(f + "R", "Structure", f)
        if r.random() < 0.7:
            cmds.append(ext(f, "e", "http://e"))
    count = 0
    for _ in range(nops):
        f = files[0] if r.random() < 0.85 else r.choice(files)
        mine = [n for n in sim.type if sim.file[n] == f]
        cont = [n for n in mine if sim.type[n] == "Structure"]
        vecs = [n for n in mine if sim.type[n] == "Vector"]
        x = r.random()
        mutated = True
        if x < 0.35 or len(sim.type) < 4:
            count += 1
            n = "n%d" % count
            t = r.random()
            if t < 0.3:
                spec = structure()
            elif t < 0.55:
                spec = vector(r.random() < 0.35)
            elif t < 0.65 and vecs:
                free = [m for m in mine if m != f + "R" and not sim.has_cv(m) and sim.type[m] != "Blob"]
                cod = [m for m in vecs if not sim.has_cv(m)]
                if not free or not cod:
                    continue
                p, c = r.choice(free), r.choice(cod)
                if r.random() < 0.8:
                    p = sim.root(p)
                    c = sim.root(c)
                if p == c or p == f + "R" or c == f + "R" or sim.type[c] != "Vector" or sim.has_cv(p) or sim.has_cv(c):
                    continue
                cmds.append(new_cv(f, n, p, c))
                if not sim.parent[p] and not sim.parent[c]:
                    sim.used |= {p, c}
                    sim.add(n, "CompressedVector", f)
                else:
                    count -= 1
                cmds.append(forest())
                continue
            else:
                spec = leaf_spec(r)
            cmds.append(new(f, n, spec))
            sim.add(n, spec[0], f)
            mutated = r.random() < 0.2
        elif x < 0.62:
            n = r.choice(cont)
            cands = [c for c in sim.type if not sim.misuse(n, c)]
            free = [c for c in cands if not sim.parent[c] and sim.file[c] == f and c != f + "R" and c != sim.root(n)]
            if not cands:
                continue
            c = r.choice(free) if free and r.random() < 0.85 else r.choice(cands)
            p = _random_path(r, sim, n)
            tgt = sim.find(n, Path(p.fields[:-1], p.abs)) if p.fields else None
            if tgt is not None and sim.misuse(tgt, c):
                continue
            if p.abs and sim.misuse(sim.root(n), c):
                continue
            cmds.append(set_(n, p, c))
            if p.fields and p.fields[-1][1] in ("id", "num", "ext"):
                sim.link(tgt, p.fields[-1][0], c)
        elif x < 0.8 and vecs:
            n = r.choice(vecs)
            cands = [c for c in sim.type if not sim.misuse(n, c)]
            free = [c for c in cands if not sim.parent[c] and sim.file[c] == f and c != f + "R" and c != sim.root(n)]
            if not cands:
                continue
            c = r.choice(free) if free and r.random() < 0.9 else r.choice(cands)
            cmds.append(append(n, c))
            sim.link(n, str(len(sim.kids[n])), c)
        else:
            mutated = False
            n = r.choice(cont + vecs)
            y = r.random()
            if y < 0.4:
                cmds.append(get(n, _random_path(r, sim, n)))
            elif y < 0.7:
                cmds.append(is_defined(n, _random_path(r, sim, n)))
            elif y < 0.9:
                cmds.append(get_index(n, r.choice([-1, 0, 0, 1, 2, len(sim.kids[n]), len(sim.kids[n]) - 1, 1 << 40, -(1 << 63)])))
            else:
                m = r.choice(sorted(sim.type))
                if r.random() < 0.5:
                    cmds.append(Cmd("node.downcast", ev=dict(op="downcast", n=m, to="Vector"), n=m, to="Vector"))
                else:
                    t = r.choice(["Structure", "Integer", "ScaledInteger", "Float", "String", "Blob", "CompressedVector", sim.type[m]])
                    cmds.append(Cmd("node.downcast", ev=dict(op="downcast", n=m, to=t), n=m, to=t))
        if mutated and r.random() < 0.5:
            cmds.append(forest())
    cmds.append(forest())
    for n in list(sim.type):
        if sim.type[n] in ("Integer", "ScaledInteger", "Float", "String", "Blob") and r.random() < 0.5:
            cmds.append(attrs(n))
    # paths from everywhere to everything
    for n in [n for n in sim.type if sim.type[n] in ("Structure", "Vector")]:
        for m in list(sim.type):
            if r.random() < 0.25:
                p = []
                k = m
                while sim.parent[k]:
                    nm = [s for s, v in sim.kids[sim.parent[k]].items() if v == k][0]
                    p.insert(0, fid(nm))
                    k = sim.parent[k]
                cmds.append(r.choice([get, is_defined])(n, Path(p, True)))
    if r.random() < 0.3:
        f = files[0]
        cmds.append(close(f))
        cmds.append(forest())
        n = f + "R"
        cmds.append(get(n, path("a")))
        cmds.append(is_defined(n, path("a")))
        cmds.append(get_index(n, 0))
        cmds.append(new(f, "late", structure()))
        leafs = [m for m in sim.type if sim.file[m] == f and not sim.kids[m] and m not in sim.used]
        if leafs:
            cmds.append(set_(n, path("zz"), r.choice(leafs)))
    return cmds


# ---- wide and deep trees

def wide_program(rng, k, depth, save=False):
    def prog(wd, seed=rng.random()):
        import random
        r = random.Random(seed)
        cmds = open_w("f", wd + "/f.e57")
        cmds.append(ext("f", "e", "http://e"))
        homog = r.random() < 0.5
        cmds += [new("f", "v", vector(not homog)), new("f", "s", structure())]
        early = r.random() < 0.5
        put = [set_("fR", path("v"), "v"), set_("fR", path("s"), "s")]
        if early:
            cmds += put
        names = ["c%d" % i if r.random() < 0.9 else "e:c%d" % i for i in range(k)]
        r.shuffle(names)
        for i in range(k):
            cmds.append(new("f", "a%d" % i, integer(i, 0, 9999) if homog or r.random() < 0.7 else string("t%d" % i)))
            at = path(("/" if r.random() < 0.5 else "") + "v/%d" % i) if early and r.random() < 0.2 else None
            cmds.append(set_("fR", at, "a%d" % i) if at else append("v", "a%d" % i))
            cmds.append(new("f", "b%d" % i, integer(-i)))
            cmds.append(set_("s", path(names[i]), "b%d" % i))
        # a chain of structures and vectors
        above, p = "s", "s"
        for i in range(depth):
            n, isvec = "d%d" % i, r.random() < 0.3
            cmds.append(new("f", n, vector(True) if isvec else structure()))
            cmds.append(append(above, n) if above.startswith("d") and kinds == "v" else set_(above, path("deep"), n))
            p += "/0" if above.startswith("d") and kinds == "v" else "/deep"
            above, kinds = n, "v" if isvec else "s"
        if not early:
            cmds += put
        cmds.append(forest())
        for i in sorted(set(r.sample(range(k), min(k, 30)) + [9, 10, 11, k - 1, k, k + 1])):
            ab = "/" if r.random() < 0.5 else ""
            cmds.append(r.choice([get, is_defined])(r.choice(["fR", "s"]) if ab else "fR", path(ab + "v/%d" % i)))
            cmds.append(get_index(r.choice(["v", "s"]), i))
            cmds.append(r.choice([get, is_defined])("v", path("%d" % i)))
            cmds.append(r.choice([get, is_defined])("s", path(names[i] if i < k else "c%d" % i)))
        cmds.append(get("fR", path(p)))
        cmds.append(is_defined("fR", path("/" + p)))
        cmds.append(is_defined("fR", path(p + "/deep")))
        cmds.append(new("f", "extra", integer(1, 0, 9999)))
        cmds.append(set_("s", path(r.choice(names)), "extra"))
        cmds.append(set_("fR", path("v/%d" % r.choice([0, k - 1, k + 1, k // 2])), "extra"))
        cmds.append(set_("fR", path("v/%d" % k), "extra"))
        cmds.append(forest())
        if save:
            cmds.append(Cmd("node.dump", ev=dict(op="live", n="fR"), n="fR"))
            cmds.append(close("f"))
            cmds.append(Cmd("imf.open", f="q", path=wd + "/f.e57", mode="r"))
            cmds.append(Cmd("imf.root", f="q", n="qR"))
            cmds.append(Cmd("node.dump", ev=dict(op="saved", f="f"), n="qR"))
            cmds.append(Cmd("ext.all", ev=dict(op="savedExts", f="f"), f="q"))
            cmds.append(Cmd("node.drop", n="qR"))
            cmds.append(Cmd("imf.close", f="q"))
        return cmds
    return prog


# ---- exhaustive small programs

def small_ops():
    """A small closed world: structure s, homogeneous vector v, integers i/j of different type, k like i"""
    ops = []
    movable = ["s", "v", "i", "j", "k"]
    for c in movable + ["fR"]:
        for n, p in (("fR", "a"), ("fR", "b"), ("s", "a"), ("fR", "a/b"), ("s", "/a"), ("s", "/b"), ("fR", "a/0"), ("fR", "a/1"), ("fR", "/b/0")):
            ops.append(lambda n=n, p=p, c=c: set_(n, path(p), c))
        ops.append(lambda c=c: append("v", c))
    return ops


def small_program(idx, ops):
    def prog(wd):
        cmds = open_w("f", wd + "/f.e57")
        cmds += [new("f", "s", structure()), new("f", "v", vector(False)), new("f", "i", integer(1, 0, 3)),
                 new("f", "j", integer(1, 0, 7)), new("f", "k", integer(2, 0, 3))]
        for i in idx:
            cmds.append(ops[i]())
        cmds.append(forest())
        for n in ("fR", "s", "v"):
            for p in ("a", "/a/b", "0", "/b/0", "a/1"):
                cmds.append(get(n, path(p)))
        return cmds
    return prog


# ---- homogeneous vectors, prototypes and attachment (P09)

class Shape:
    """A type: kind, attributes, children [(name, Shape)]; values are chosen when it is built"""

    def __init__(self, kind, attr=None, kids=None):
        self.kind, self.attr, self.kids = kind, attr, kids or []

    def copy(self):
        return Shape(self.kind, self.attr, [(n, k.copy()) for n, k in self.kids])

    def all(self):
        out = [self]
        for _, k in self.kids:
            out += k.all()
        return out


def rand_attr(r, kind):
    if kind == "Integer":
        return r.choice([(0, 3), (0, 4), (-1, 3), (I64MIN, I64MAX), (I64MIN, 3), (0, 0)])
    if kind == "ScaledInteger":
        return r.choice([(0, 3), (0, 4), (-1, 3)]) + (r.choice([1.0, 0.5, 0.25]), r.choice([0.0, 1.0, -2.5]))
    if kind == "Float":
        return r.choice([("double", -5.0, 5.0), ("double", -5.0, 6.0), ("double", -6.0, 5.0), ("single", -5.0, 5.0), ("double", None, None), ("single", None, None)])
    if kind == "Blob":
        return r.choice([0, 1, 8])
    if kind == "Vector":
        return r.choice([True, False])
    return None


def rand_shape(r, depth=2, cv=True):
    kinds = ["Integer", "ScaledInteger", "Float", "String", "Blob"]
    if depth > 0:
        kinds += ["Structure", "Structure", "Vector", "Vector"]
        if cv:
            kinds += ["CompressedVector"]
    k = r.choice(kinds)
    s = Shape(k, rand_attr(r, k))
    if k == "Structure":
        for n in r.sample(["a", "b", "c", "d"], r.randint(0, 3)):
            s.kids.append((n, rand_shape(r, depth - 1, cv)))
    elif k == "Vector":
        n = r.randint(0, 3)
        if s.attr:
            s.kids = [(str(i), rand_shape(r, depth - 1, cv)) for i in range(n)]
        else:
            e = rand_shape(r, depth - 1, cv)
            s.kids = [(str(i), e.copy()) for i in range(n)]
    elif k == "CompressedVector":
        p = Shape("Structure", None, [(n, leafshape(r)) for n in r.sample(["a", "b", "c"], r.randint(1, 3))])
        s.kids = [("@p", p), ("@c", Shape("Vector", True, [("0", leafshape(r))] if r.random() < 0.4 else []))]
    return s


def leafshape(r):
    k = r.choice(["Integer", "ScaledInteger", "Float", "String"])
    return Shape(k, rand_attr(r, k))


def mutate(r, shape):
    """A copy that differs somewhere (or, sometimes, only in child order or not at all)"""
    s = shape.copy()
    x = r.random()
    if x < 0.25:
        return s
    if x < 0.45:
        for n in s.all():
            if n.kind == "Structure":
                r.shuffle(n.kids)
        return s
    n = r.choice(s.all())
    y = r.random()
    if n.kind == "Structure" and y < 0.8:
        z = r.random()
        names = [k for k, _ in n.kids]
        if z < 0.35 and names:
            n.kids.pop(r.randrange(len(n.kids)))
        elif z < 0.7:
            n.kids.append((r.choice([q for q in ["a", "b", "c", "d", "e"] if q not in names]), leafshape(r)))
        elif names:
            i = r.randrange(len(n.kids))
            n.kids[i] = (r.choice([q for q in ["a", "b", "c", "d", "e"] if q not in names]), n.kids[i][1])
    elif n.kind == "Vector" and y < 0.6 and n.kids:
        if r.random() < 0.5:
            n.kids.pop()
        else:
            n.kids.append((str(len(n.kids)), n.kids[0][1].copy()))
    elif n.attr is not None and y < 0.9:
        old = n.attr
        for _ in range(10):
            n.attr = rand_attr(r, n.kind)
            if n.attr != old:
                break
    elif n.kind != "CompressedVector" and n.kind in ("Integer", "ScaledInteger", "Float", "String"):
        q = leafshape(r)
        n.kind, n.attr = q.kind, q.attr
    return s


class Builder:
    def __init__(self, r, f, cmds, prefix="n"):
        self.r, self.f, self.cmds, self.k, self.prefix = r, f, cmds, 0, prefix

    def h(self):
        self.k += 1
        return "%s%d" % (self.prefix, self.k)

    def leaf(self, s):
        r = self.r
        if s.kind == "Integer":
            return integer(r.choice([s.attr[0], s.attr[1]]), *s.attr)
        if s.kind == "ScaledInteger":
            return scaled(r.choice([s.attr[0], s.attr[1]]), *s.attr)
        if s.kind == "Float":
            return real(r.choice([0.0, 1.5, -5.0]), *s.attr)
        if s.kind == "String":
            return string(r.choice(["", "x", "yy"]))
        return blob(s.attr)

    def build(self, s):
        """Top-down or bottom-up, the result is an unattached tree"""
        n = self.h()
        if s.kind == "CompressedVector":
            p = self.build(s.kids[0][1])
            c = self.build(s.kids[1][1])
            self.cmds.append(new_cv(self.f, n, p, c))
            return n
        if s.kind in ("Structure", "Vector"):
            self.cmds.append(new(self.f, n, structure() if s.kind == "Structure" else vector(s.attr)))
            for name, k in s.kids:
                c = self.build(k)
                self.cmds.append(set_(n, path(name), c) if s.kind == "Structure" else append(n, c))
            return n
        self.cmds.append(new(self.f, n, self.leaf(s)))
        return n


def homog_program(rng):
    def prog(wd, seed=rng.random()):
        import random
        r = random.Random(seed)
        cmds = open_w("f", wd + "/f.e57")
        b = Builder(r, "f", cmds)
        v = b.h()
        cmds.append(new("f", v, vector(False)))
        when = r.choice([0, 1, 2, 3])
        shape = rand_shape(r, 2)
        if r.random() < 0.3:
            # the homogeneous vector is itself below another one
            w = b.h()
            cmds.append(new("f", w, vector(r.random() < 0.3)))
            cmds.append(append(w, v))
            top = w
        else:
            top = v
        if when == 0:
            cmds.append(set_("fR", path("vec"), top))
        made = []
        for i in range(r.choice([2, 3, 4])):
            s = shape.copy() if i == 0 else mutate(r, shape)
            c = b.build(s)
            made.append((c, s))
            if r.random() < 0.15:
                cmds.append(set_("fR", path("vec/%d" % r.choice([0, 1, 2, i])), c))
            else:
                cmds.append(append(v, c))
            if when == i + 1:
                cmds.append(set_("fR", path("vec"), top))
            if r.random() < 0.4:
                cmds.append(forest())
            # try to change an element, at any depth
            if r.random() < 0.5:
                cands = [m for m in _nodes_of(cmds) if m[1] in ("Structure", "Vector")]
                m, t = r.choice(cands)
                extra = b.build(leafshape(r))
                if t == "Structure":
                    cmds.append(set_(m, path(r.choice(["a", "z", "b"])), extra))
                else:
                    cmds.append(append(m, extra))
                cmds.append(forest())
        cmds.append(forest())
        return cmds
    return prog


def _nodes_of(cmds):
    used = set()
    for c in cmds:
        if c.ev and c.ev["op"] == "newcv":
            used |= {c.ev["proto"], c.ev["codecs"]}
    return [(c.ev["n"], c.ev["type"]) for c in cmds if c.ev and c.ev["op"] == "new"]


def attach_program(rng):
    """Prototypes, codecs and subtrees attached in any order; attempts to change or reuse what is attached"""
    def prog(wd, seed=rng.random()):
        import random
        r = random.Random(seed)
        cmds = open_w("f", wd + "/f.e57") + open_w("g", wd + "/g.e57")
        b = Builder(r, "f", cmds)
        bg = Builder(r, "g", cmds, "m")
        p = b.build(Shape("Structure", None, [("a", leafshape(r)), ("b", Shape("Structure", None, [("x", leafshape(r))]))]))
        c = b.build(Shape("Vector", True, []))
        pn, cn = [n for n, t in _nodes_of(cmds) if t == "Structure"], c
        cv = b.h()
        host = b.build(Shape("Structure", None, [("h", leafshape(r))]))
        steps = ["attach_host", "make", "attach_cv", "grow_proto", "grow_proto", "grow_codecs", "grow_host", "foreign", "again", "cycle", "reuse"]
        if r.random() < 0.5:
            r.shuffle(steps)
        have_cv = False
        for s in steps:
            if s == "attach_host":
                cmds.append(set_("fR", path("host"), host))
            elif s == "make":
                x = r.random()
                if x < 0.12:
                    q = bg.build(Shape("Structure"))
                    cmds.append(new_cv("f", b.h(), q, c))
                elif x < 0.24:
                    q = bg.build(Shape("Vector", True))
                    cmds.append(new_cv("f", b.h(), p, q))
                elif x < 0.36:
                    inner = b.build(Shape("Structure", None, [("y", leafshape(r))]))
                    cmds.append(set_(host, path("q%d" % len(cmds)), inner))
                    cmds.append(new_cv("f", b.h(), inner, c))
                cmds.append(new_cv("f", cv, p, c))
                have_cv = True
            elif s == "attach_cv" and have_cv:
                cmds.append(r.choice([lambda: set_(host, path("cv"), cv), lambda: set_("fR", path("cv"), cv)])())
            elif s == "grow_proto":
                m = r.choice(pn)
                e = b.build(leafshape(r))
                if not (m == host):
                    cmds.append(set_(m, path(r.choice(["k", "l", "m"])), e))
            elif s == "grow_codecs":
                e = b.build(leafshape(r))
                cmds.append(append(c, e))
            elif s == "grow_host":
                cmds.append(set_(host, path("z%d" % r.randint(0, 1)), b.build(leafshape(r))))
            elif s == "foreign":
                e = bg.build(leafshape(r))
                cmds.append(r.choice([lambda: set_(host, path("foreign"), e), lambda: set_("fR", path("host/foreign"), e),
                                      lambda: set_("fR", path("/foreign"), e), lambda: append(c, e) if not have_cv else set_(host, path("fo"), e)])())
            elif s == "again":
                e = b.build(leafshape(r))
                cmds.append(set_(host, path("once"), e))
                cmds.append(r.choice([lambda: set_(host, path("twice"), e), lambda: set_("fR", path("twice"), e), lambda: set_("gR", path("twice"), e)])())
            elif s == "cycle":
                q = b.build(Shape("Structure", None, [("d", Shape("Structure", None, [("e", Shape("Structure"))]))]))
                cmds.append(r.choice([lambda: set_(q, path("d/e/up"), q), lambda: set_(q, path("self"), q), lambda: set_("fR", path("r"), "fR"),
                                      lambda: set_(host, path("r"), "fR")])())
            elif s == "reuse":
                cmds.append(r.choice([lambda: set_(host, path("gr"), "gR"), lambda: set_("gR", path("h"), host)])())
            if r.random() < 0.6:
                cmds.append(forest())
        cmds.append(forest())
        return cmds
    return prog


# ---- saving and reopening (P10)

def rand_double(r):
    x = r.random()
    if x < 0.35:
        while True:
            d = struct.unpack("<d", struct.pack("<Q", r.getrandbits(64)))[0]
            if math.isfinite(d):
                return d
    if x < 0.5:
        return r.choice([0.0, -0.0, 1.0, -1.0, DBL_MAX, -DBL_MAX, 2.2250738585072014e-308, 5e-324, -5e-324, 0.1, 1 / 3, 1e22, 1e23,
                         123456789012345680.0, 9007199254740993.0, 1e-7, 100.0, 1e15, 1e16, 1e17])
    if x < 0.7:
        return round(r.uniform(-1000, 1000), r.randint(0, 6))
    return r.uniform(-1, 1) * 10 ** r.randint(-30, 30)


def rand_single(r):
    x = r.random()
    if x < 0.4:
        while True:
            d = struct.unpack("<f", struct.pack("<I", r.getrandbits(32)))[0]
            if math.isfinite(d):
                return d
    if x < 0.6:
        return r.choice([0.0, -0.0, 1.0, FLT_MAX, -FLT_MAX, 1.1754943508222875e-38, 1.401298464324817e-45, f32(0.1), f32(1 / 3), 16777216.0])
    return f32(r.uniform(-1, 1) * 10 ** r.randint(-20, 20))


def rand_int(r):
    return r.choice([0, 1, -1, I64MIN, I64MAX, I64MIN + 1, I64MAX - 1, (1 << 31) - 1, 1 << 31, -(1 << 31), -(1 << 31) - 1, (1 << 32) - 1, 1 << 32,
                     (1 << 53) + 1, r.randint(-100, 100), r.randint(I64MIN, I64MAX), r.randint(-(1 << 40), 1 << 40)])


XML_BITS = ["&", "<", ">", '"', "'", "]]>", "]]", "]", "<![CDATA[", "&amp;", "&#13;", "&lt;", "\n", "\r", "\r\n", "\t", " ", "  ", "a", "Z", "0", "%", "\\",
            "é", "ß", "中文", "\U0001F600", " ", " ", "�", "\u0085", "\x7f", "<!--", "-->", "<?xml?>", "</e57Root>", "{", "$"]


def rand_string(r):
    x = r.random()
    if x < 0.1:
        return ""
    if x < 0.6:
        return "".join(r.choice(XML_BITS) for _ in range(r.randint(1, 8)))
    if x < 0.75:
        return "".join(chr(r.choice([r.randint(32, 126), r.randint(0xa0, 0x2ff), r.randint(0x4e00, 0x4eff), 0x10400])) for _ in range(r.randint(1, 30)))
    if x < 0.9:
        return "x" * r.choice([50, 1000, 1019, 1020, 1021, 5000, 70000]) + "".join(r.choice(XML_BITS) for _ in range(3))
    return r.choice([" lead", "trail ", "\n", "\r", "]]>", "]]>]]>", "]]&gt;", "a]]>b<c>&d", "]]>]]", ">]]>", "\r\r\n\n", " \t "])


def sorted3(a, b, c):
    return sorted([a, b, c])


def rand_leaf(r):
    k = r.choice(["Integer", "Integer", "ScaledInteger", "Float", "Float", "Float", "String", "String", "Blob"])
    if k == "Integer":
        if r.random() < 0.2:
            return integer(rand_int(r))
        lo, v, hi = sorted3(rand_int(r), rand_int(r), rand_int(r))
        if r.random() < 0.15:
            lo = v
        if r.random() < 0.15:
            hi = v
        return integer(v, lo, hi)
    if k == "ScaledInteger":
        lo, v, hi = sorted3(rand_int(r), rand_int(r), rand_int(r))
        sc = r.choice([1.0, 0.001, rand_double(r), 1e-9])
        return scaled(v, lo, hi, sc if sc != 0 else 2.0, r.choice([0.0, 0.0, rand_double(r)]))
    if k == "Float":
        if r.random() < 0.5:
            if r.random() < 0.35:
                return real(rand_double(r))
            lo, v, hi = sorted3(rand_double(r), rand_double(r), rand_double(r))
            if r.random() < 0.2:
                lo = -DBL_MAX
            if r.random() < 0.2:
                hi = DBL_MAX
            return real(v, "double", lo, hi)
        if r.random() < 0.35:
            return real(rand_single(r), "single")
        lo, v, hi = sorted3(rand_single(r), rand_single(r), rand_single(r))
        if r.random() < 0.2:
            lo = -DBL_MAX
        if r.random() < 0.2:
            hi = FLT_MAX
        return real(v, "single", lo, hi)
    if k == "String":
        return string(rand_string(r))
    return blob(r.choice([0, 1, 4, 100, 1020, 3000]))


SAVE_NAMES = ["a", "b", "guid", "name_1", "x-y.z", "_u", "Value", "e:ext", "e:ext2", "f:g", "é", "中", "prototype", "codecs", "vectorChild", "type", "e57Root"]


def save_program(rng, size):
    def prog(wd, seed=rng.random()):
        import random
        r = random.Random(seed)
        cmds = open_w("f", wd + "/f.e57")
        n = [0]

        def h():
            n[0] += 1
            return "n%d" % n[0]

        uris = ["http://e.example/x", "http://f?a=1&b=2", 'u"q"<>', "urn:é"]
        cmds.append(ext("f", "e", r.choice(uris[:2])))
        cmds.append(ext("f", "f", r.choice(uris[2:])))
        for k in range(r.choice([0, 0, 1, 5])):
            cmds.append(ext("f", "p%d" % k, "uri%d-%s" % (k, r.choice(["'", "x", "&amp;", "%20", "ü"]))))

        def leaf(parent, name):
            c = h()
            cmds.append(new("f", c, rand_leaf(r)))
            put(parent, name, c)

        def put(parent, name, c):
            if name is None:
                cmds.append(append(parent, c))
            else:
                cmds.append(set_(parent, path(name), c))

        def cv(parent, name):
            p, c, v, b = h(), h(), h(), None
            cmds.append(new("f", p, structure()))
            for nm in r.sample(["x", "y", "e:z", "w"], r.randint(1, 3)):
                q = h()
                cmds.append(new("f", q, r.choice([lambda: integer(0, 0, 255), lambda: integer(rand_int(r)), lambda: scaled(0, -5, 5, 0.1, rand_double(r)),
                                                  lambda: real(0.5), lambda: real(rand_single(r), "single"), lambda: string("")])()))
                cmds.append(set_(p, path(nm), q))
            q = h()
            cmds.append(new("f", q, integer(0, 0, 255)))
            cmds.append(set_(p, path("k"), q))
            cmds.append(new("f", c, vector(True)))
            cmds.append(new_cv("f", v, p, c))
            put(parent, name, v)
            return v

        def simple_cv(parent, name, attached):
            p, c, v, q = h(), h(), h(), h()
            cmds.append(new("f", p, structure()))
            cmds.append(new("f", q, integer(0, 0, 255)))
            cmds.append(set_(p, path("k"), q))
            cmds.append(new("f", c, vector(True)))
            if r.random() < 0.3:
                s, i, k = h(), h(), h()
                cmds.append(new("f", s, structure()))
                cmds.append(new("f", i, vector(True)))
                cmds.append(new("f", k, string("k")))
                cmds.append(append(i, k))
                cmds.append(set_(s, path("inputs"), i))
                cmds.append(append(c, s))
            cmds.append(new_cv("f", v, p, c))
            put(parent, name, v)
            if not attached:
                return
            k = r.choice([1, 7, 300, 2000])
            cmds.append(Cmd("fld", id=v, path="k", kind="int", min=0, max=255, seed=1))
            cmds.append(Cmd("w.new", w="w", n=v, bufs="%s:UInt8:%d:0:0:0" % (v, k)))
            cmds.append(Cmd("w.write", w="w", n=k, start=0))
            cmds.append(Cmd("w.close", w="w"))
            cmds.append(Cmd("w.drop", w="w"))
            cmds.append(Cmd("note", ev=dict(op="records", n=v, k=k)))

        def fill(parent, isvec, depth, budget, attached):
            names = r.sample(SAVE_NAMES, min(len(SAVE_NAMES), r.randint(0 if depth else 1, 7)))
            for nm in names:
                if budget[0] <= 0:
                    return
                budget[0] -= 1
                name = None if isvec else nm
                x = r.random()
                if x < 0.55 or depth > 5:
                    leaf(parent, name)
                elif x < 0.75:
                    c = h()
                    cmds.append(new("f", c, structure()))
                    if r.random() < 0.5:
                        put(parent, name, c)
                        fill(c, False, depth + 1, budget, attached)
                    else:
                        fill(c, False, depth + 1, budget, False)
                        put(parent, name, c)
                elif x < 0.86:
                    c = h()
                    cmds.append(new("f", c, vector(True)))
                    put(parent, name, c)
                    fill(c, True, depth + 1, budget, attached)
                elif x < 0.92:
                    c = h()
                    cmds.append(new("f", c, vector(False)))
                    put(parent, name, c)
                    b = Builder(r, "f", cmds, "h%d_" % n[0])
                    s = rand_shape(r, 1, False)
                    for _ in range(r.randint(0, 3)):
                        cmds.append(append(c, b.build(s)))
                elif x < 0.96:
                    cv(parent, name)
                else:
                    simple_cv(parent, name, attached)
        fill("fR", False, 0, [size], True)
        if r.random() < 0.3:
            # an unattached tree is not saved
            c = h()
            cmds.append(new("f", c, structure()))
            leaf(c, "lost")
        cmds.append(Cmd("node.dump", ev=dict(op="live", n="fR"), n="fR"))
        cmds.append(close("f"))
        for how in ("imf.open", "imf.openbuf"):
            if how == "imf.openbuf" and r.random() < 0.7:
                continue
            cmds.append(Cmd(how, f="q", path=wd + "/f.e57", mode="r"))
            cmds.append(Cmd("imf.root", f="q", n="qR"))
            cmds.append(Cmd("node.dump", ev=dict(op="saved", f="f"), n="qR"))
            cmds.append(Cmd("ext.all", ev=dict(op="savedExts", f="f"), f="q"))
            cmds.append(Cmd("node.drop", n="qR"))
            cmds.append(Cmd("imf.close", f="q"))
            cmds.append(Cmd("imf.drop", f="q"))
        return cmds
    return prog


def leaf_save_program(rng, specs):
    """Many leaves of given specifications directly under the root"""
    def prog(wd):
        cmds = open_w("f", wd + "/f.e57")
        for i, s in enumerate(specs):
            cmds.append(new("f", "n%d" % i, s))
            cmds.append(set_("fR", path("v%d" % i), "n%d" % i))
        cmds.append(close("f"))
        cmds.append(Cmd("imf.open", f="q", path=wd + "/f.e57", mode="r"))
        cmds.append(Cmd("imf.root", f="q", n="qR"))
        cmds.append(Cmd("node.dump", ev=dict(op="saved", f="f"), n="qR"))
        return cmds
    return prog

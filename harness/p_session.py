"""P13: reader and writer sessions."""
import random

from core import Cmd, build, events_of
from gen_transfer import Proto

STRIDE = {"UString": 0}


class Vec:
    def __init__(self, v, f, path, pr):
        self.v, self.f, self.path, self.pr = v, f, path, pr
        self.att, self.recs, self.sect = False, 0, False
        self.bad = self.lost = False

    def as_of(self, v, f):
        n = Vec(v, f, self.path, self.pr)
        n.att, n.recs, n.sect, n.ids, n.inner = True, self.recs, self.sect, self.ids, self.inner
        n.bad = self.bad
        return n


class World:
    """Mirror of the sessions, used only to choose meaningful commands"""

    def __init__(self, r, wd):
        self.r, self.wd = r, wd
        self.cmds = []
        self.files = {}   # f -> dict(open, mode, path)
        self.vecs = {}
        self.sess = {}    # s -> dict
        self.hs = {}
        self.saved = {}
        self.n = 0

    def uid(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def put(self, op, ev, **a):
        self.cmds.append(Cmd(op, ev=ev, **a))

    # ---- files and vectors
    def openw(self):
        f = self.uid("f")
        p = "%s/%s-%x.e57" % (self.wd, f, self.r.randrange(1 << 48))
        self.put("imf.open", dict(op="openw", f=f), f=f, path=p, mode="w")
        self.put("imf.root", None, f=f, n="root" + f)
        self.files[f] = dict(open=True, mode="w", path=p)

    def closef(self, f):
        x = self.files[f]
        if x["mode"] == "w" and self.tainted(f):
            self.cancelf(f)
            return
        if x["open"] and x["mode"] == "w":
            self.saved[x["path"]] = {v.path: v.as_of(v.v, f) for v in self.vecs.values() if v.f == f and v.att}
        x["open"] = False
        self.put("imf.close", dict(op="closef", f=f, p=x["path"]), f=f)

    def damage(self):
        """damage the section of a vector of a file that is not open"""
        c = [(p, q) for p, vs in sorted(self.saved.items()) for q, v in sorted(vs.items())
             if v.sect and not v.bad and not any(x["open"] and x["path"] == p for x in self.files.values())]
        if c:
            p, q = self.r.choice(c)
            what = self.r.choice(["id", "packet"])
            self.put("cv.damage", dict(op="damage", p=p, path=q, what=what), path=p, vec=q, what=what)
            self.saved[p][q].bad = True

    def tainted(self, f):
        """a writer of the file failed, or may still fail: the file is not kept"""
        return any(v.f == f and v.lost for v in self.vecs.values()) or any(x["broken"] and x["vec"].f == f for x in self.sess.values())

    def cancelf(self, f):
        self.files[f]["open"] = False
        self.put("imf.cancel", dict(op="cancelf", f=f), f=f)

    def openr(self):
        if not self.saved:
            return
        p = self.r.choice(sorted(self.saved))
        f = self.uid("f")
        if self.r.random() < 0.3:
            self.put("imf.openbuf", dict(op="openr", f=f, p=p), f=f, path=p)
        else:
            self.put("imf.open", dict(op="openr", f=f, p=p), f=f, path=p, mode="r")
        self.put("imf.root", None, f=f, n="root" + f)
        self.files[f] = dict(open=True, mode="r", path=p)
        for path, old in sorted(self.saved[p].items()):
            v = self.uid("v")
            self.put("node.get", dict(op="getvec", vec=v, f=f, p=p, path=path), n="root" + f, path=path, **{"as": v})
            self.vecs[v] = old.as_of(v, f)

    def newvec(self, f, attach):
        r = self.r
        v = self.uid("v")
        pr = Proto(r, f, v, r.choice([1, 2, 2, 3, 4]), r.choice([0, 1, 2]), kinds=["int", "int", "sint", "f64", "f32", "str"], strlen=30)
        self.cmds += pr.cmds
        vec = Vec(v, f, "vec" + v, pr)
        vec.ids = {}
        leaves = []
        inner = set()
        for lf in pr.leaves:
            seed = r.randrange(1 << 40)
            for q in (lf.path, "/" + lf.path):
                i = self.uid("id")
                vec.ids[q] = (i, lf)
                leaves.append([q, lf.path])
                self.put("fld", None, id=i, path=q, kind=lf.kind, min=lf.min, max=lf.max, seed=seed, maxlen=lf.maxlen)
            parts = lf.path.split("/")[:-1]
            for k in range(len(parts)):
                inner.add("/".join(parts[:k + 1]))
        for q in sorted(inner):
            leaves.append([q, "inner"])
        vec.inner = []
        for q in sorted(inner) + ["zz", "/zz", pr.leaves[0].path + "/zz"]:
            i = self.uid("id")
            vec.ids[q] = (i, None)
            vec.inner.append(q)
            self.put("fld", None, id=i, path=q, kind="int", min=0, max=9, seed=1)
        self.put("node.new", None, f=f, n=v + "cod", type="Vector", hetero=1)
        self.put("node.new", dict(op="newvec", vec=v, f=f, path=vec.path, leaves=leaves, kinds=[[lf.path, "str" if lf.kind == "str" else "num"] for lf in pr.leaves]), f=f, n=v, type="CompressedVector", proto=pr.root, codecs=v + "cod")
        self.vecs[v] = vec
        if attach:
            self.attach(vec)

    def attach(self, vec):
        self.put("node.set", dict(op="attach", vec=vec.v), n="root" + vec.f, path=vec.path, c=vec.v)
        vec.att = True

    # ---- buffers: list of (path, rep, cap, extra, conv)
    def good(self, vec, cap, all_):
        r = self.r
        lv = list(vec.pr.leaves)
        if not all_ and r.random() < 0.5:
            lv = r.sample(lv, r.randint(1, len(lv)))
        if r.random() < 0.5:
            r.shuffle(lv)
        out = []
        for lf in lv:
            rep, need = r.choice(lf.reps(all_))
            size = {"Int8": 1, "UInt8": 1, "Bool": 1, "Int16": 2, "UInt16": 2, "Int32": 4, "UInt32": 4, "Real32": 4}.get(rep, 8)
            q = "/" + lf.path if r.random() < 0.15 else lf.path
            out.append([q, rep, cap, 0 if rep == "UString" else r.choice([0, 0, size]), int(need)])
        return out

    def spoil(self, vec, b):
        """Change a buffer list in a way that usually breaks a rule"""
        r = self.r
        b = [list(x) for x in b]
        k = r.choice(["cap", "cap0", "dup", "alias", "unknown", "missing", "extra", "rep", "stride", "conv", "order", "empty", "undefined"])
        if k == "cap" or k == "cap0":
            x = r.choice(b)
            x[2] = x[2] + r.choice([1, 5]) if k == "cap" else x[2] // 2
        elif k == "dup":
            b.append(list(r.choice(b)))
        elif k == "alias":
            x = list(r.choice(b))
            x[0] = x[0][1:] if x[0].startswith("/") else "/" + x[0]
            b.append(x)
        elif k == "unknown" or k == "extra":
            x = list(r.choice(b)) if k == "extra" else r.choice(b)
            x[0] = r.choice(vec.inner)
            if x[1] == "UString":
                x[1], x[3] = "Int64", 0
            if k == "extra":
                b.insert(r.randint(0, len(b)), x)
        elif k == "missing":
            if len(b) > 1:
                b.pop(r.randrange(len(b)))
        elif k == "rep":
            x = r.choice(b)
            if x[1] != "UString":
                x[1] = r.choice([q for q in ("Int8", "Int16", "Int32", "Int64", "UInt32", "Real32", "Real64") if q != x[1]])
                x[3] = 0
        elif k == "stride":
            x = r.choice(b)
            if x[1] != "UString":
                x[3] += 16
        elif k == "conv":
            x = r.choice(b)
            if x[1] != "UString":
                x[4] = 1 - x[4]
        elif k == "order":
            r.shuffle(b)
        elif k == "empty":
            b = []
        return b

    def spec(self, vec, b):
        return ",".join("%s:%s:%d:%d:%d:0" % (vec.ids[p][0], rep, cap, ex, cv) for p, rep, cap, ex, cv in b)

    def evb(self, b):
        return [[p, cap, "%s:%d:%d" % (rep, ex if rep != "UString" else 0, cv if rep != "UString" else 0), "str" if rep == "UString" else "num"] for p, rep, cap, ex, cv in b]

    def leaf(self, vec, p):
        x = vec.ids[p][1]
        return x.path if x else None

    def buf_ok(self, vec, b, all_):
        if not b or any(x[2] != b[0][2] for x in b):
            return False
        ls = [self.leaf(vec, x[0]) for x in b]
        if None in ls or len(set(ls)) != len(ls):
            return False
        return not all_ or len(ls) == len(vec.pr.leaves)

    def writable_reps(self, vec, b):
        """values of the field fit the representation (otherwise a write may fail in the middle of a block)"""
        for p, rep, cap, ex, cv in b:
            lf = vec.ids[p][1]
            if lf is None:
                continue
            reps = dict(lf.reps(True))
            if rep not in reps or (reps[rep] and not cv):
                return False
        return True

    def unfit(self, vec, b):
        """strings in a buffer of numbers or the reverse: the first transfer fails"""
        return any((rep == "UString") != (vec.ids[p][1].kind == "str") for p, rep, cap, ex, cv in b if vec.ids[p][1] is not None)

    # ---- sessions
    def active(self, f, kind=None):
        return [s for s, x in self.sess.items() if x["open"] and x["vec"].f == f and (kind is None or x["kind"] == kind)]

    def new(self, kind, vec, b):
        h = self.uid("h")
        f = self.files[vec.f]
        ok = (f["open"] and not self.active(vec.f) and vec.att and self.buf_ok(vec, b, kind == "w") and
              ((f["mode"] == "w" and vec.recs == 0) if kind == "w" else (vec.sect and not vec.bad)))
        ev = dict(op="new", kind=kind, h=h, s=h, vec=vec.v, bufs=self.evb(b))
        if kind == "w":
            self.put("w.new", ev, w=h, n=vec.v, bufs=self.spec(vec, b))
        else:
            self.put("r.new", ev, s=h, n=vec.v, bufs=self.spec(vec, b))
        if ok:
            self.sess[h] = dict(kind=kind, vec=vec, open=True, bufs=b, n=0, broken=False)
            self.hs[h] = h

    def key(self, h):
        return "w" if self.sess[self.hs[h]]["kind"] == "w" else "s"

    def usable(self, s):
        return self.sess[s]["open"] and self.files[self.sess[s]["vec"].f]["open"]

    def compatible(self, a, b):
        return [x[:2] + x[3:] for x in a] == [x[:2] + x[3:] for x in b]

    def write(self, h, n, b=None):
        s = self.hs[h]
        x = self.sess[s]
        vec = x["vec"]
        if b is None:
            self.put("w.write", dict(op="write", h=h, k=n), w=h, n=n, start=x["n"])
            if self.usable(s) and n <= x["bufs"][0][2]:
                self._wrote(x, n)
        else:
            swap = self.compatible(x["bufs"], b) and self.buf_ok(vec, b, True)
            self.put("w.write", dict(op="writewith", h=h, k=n, bufs=self.evb(b)), w=h, n=n, start=x["n"], bufs=self.spec(vec, b),
                     keep=int(swap and self.usable(s)))
            if swap and self.usable(s):
                x["bufs"] = b
                if n <= b[0][2]:
                    self._wrote(x, n)

    def _wrote(self, x, n):
        if n > 0 and self.unfit(x["vec"], x["bufs"]):
            x["broken"] = True
        else:
            x["n"] += n

    def _read(self, x):
        if x["n"] < x["vec"].recs and x["bufs"][0][2] > 0 and self.unfit(x["vec"], x["bufs"]):
            x["broken"] = True
        else:
            x["n"] = min(x["vec"].recs, x["n"] + x["bufs"][0][2])

    def read(self, h, b=None):
        s = self.hs[h]
        x = self.sess[s]
        vec = x["vec"]
        if b is None:
            self.put("r.read", dict(op="read", h=h), s=h, total=vec.recs)
            if self.usable(s):
                self._read(x)
        else:
            self.put("r.read", dict(op="readwith", h=h, bufs=self.evb(b)), s=h, total=vec.recs, bufs=self.spec(vec, b))
            if self.usable(s) and self.compatible(x["bufs"], b) and self.buf_ok(vec, b, False):
                x["bufs"] = b
                self._read(x)

    def _store(self, s):
        x = self.sess[s]
        if x["kind"] == "w" and self.usable(s):
            x["vec"].recs, x["vec"].sect, x["vec"].lost = x["n"], True, x["broken"]

    def close(self, h):
        s = self.hs[h]
        k = self.key(h)
        self._store(s)
        self.sess[s]["open"] = False
        self.put("w.close" if k == "w" else "r.close", dict(op="close", h=h), **{k: h})

    def drop(self, h):
        s = self.hs[h]
        k = self.key(h)
        del self.hs[h]
        if s not in self.hs.values():
            self._store(s)
            del self.sess[s]
        self.put("w.drop" if k == "w" else "r.drop", dict(op="drop", h=h), **{k: h})

    def copy(self, h):
        g = self.uid("h")
        self.hs[g] = self.hs[h]
        self.put("ses.copy", dict(op="copy", h=h, g=g), s=h, t=g)

    def isopen(self, h):
        k = self.key(h)
        self.put("w.isOpen" if k == "w" else "r.isOpen", dict(op="isopen", h=h), **{k: h})

    def counts(self):
        for f in self.files:
            self.put("imf.counts", dict(op="counts", f=f), f=f)

    def childcounts(self):
        for v in self.vecs.values():
            if self.files[v.f]["open"] and not v.lost and not any(self.sess[s]["vec"] is v for s in self.active(v.f, "w")):
                self.put("node.childCount", dict(op="count", vec=v.v), n=v.v)

    # ---- random steps
    def cap(self):
        return self.r.choice([1, 1, 2, 3, 5, 8, 60, 130])

    def next_bufs(self, s):
        x = self.sess[s]
        b = [list(y) for y in x["bufs"]]
        c = self.cap()
        for y in b:
            y[2] = c
        if self.r.random() < 0.4:
            b = self.spoil(x["vec"], b)
        return b

    def step(self):
        r = self.r
        k = r.choice(["new"] * 6 + ["use"] * 12 + ["close"] * 3 + ["drop", "copy", "isopen", "seek", "vec", "attach", "openw", "openr", "closef", "cancelf", "damage"] + ["counts"] * 2)
        if k == "openw" and len(self.files) < 3:
            self.openw()
        elif k == "openr" and len(self.files) < 5:
            self.openr()
        elif k == "closef" and self.files and r.random() < 0.6:
            self.closef(r.choice(list(self.files)))
        elif k == "cancelf" and self.files and r.random() < 0.15:
            f = r.choice(list(self.files))
            if self.files[f]["open"] and (self.files[f]["mode"] == "r" or r.random() < 0.3):
                self.cancelf(f)
        elif k == "damage":
            self.damage()
        elif k == "vec":
            fs = [f for f, x in self.files.items() if x["open"] and x["mode"] == "w"]
            if fs and len(self.vecs) < 8:
                self.newvec(r.choice(fs), r.random() < 0.7)
        elif k == "attach":
            vs = [v for v in self.vecs.values() if not v.att and self.files[v.f]["open"]]
            if vs:
                self.attach(r.choice(vs))
        elif k == "new":
            vs = [v for v in self.vecs.values() if not v.lost]
            if not vs:
                return
            # prefer combinations that can succeed
            live = [v for v in vs if self.files[v.f]["open"] and v.att and not self.active(v.f)]
            v = r.choice(live if live and r.random() < 0.8 else vs)
            kind = r.choice("wr")
            if r.random() < 0.7:
                kind = "w" if v.recs == 0 and self.files[v.f]["mode"] == "w" and (not v.sect or r.random() < 0.5) else "r"
            b = self.good(v, self.cap(), kind == "w")
            if r.random() < 0.3:
                b = self.spoil(v, b)
            if self.buf_ok(v, b, kind == "w") and not self.writable_reps(v, b):
                return
            x = r.choice(b) if b and r.random() < 0.1 else None
            lf = x and v.ids[x[0]][1]
            if lf:
                x[1], x[3], x[4] = ("Int32" if lf.kind == "str" else "UString"), 0, 0
            self.new(kind, v, b)
        elif k == "use" and self.hs:
            act = [h for h in self.hs if self.sess[self.hs[h]]["open"]]
            h = r.choice(act if act and r.random() < 0.8 else list(self.hs))
            s = self.hs[h]
            x = self.sess[s]
            if x["broken"]:
                return
            if x["kind"] == "w":
                if r.random() < 0.35:
                    b = self.next_bufs(s)
                    n = r.randint(0, b[0][2] + (r.random() < 0.3) * 3) if b else 1
                    self.write(h, n, b)
                else:
                    c = x["bufs"][0][2]
                    self.write(h, r.choice([c, c, c + 1, r.randint(0, c), c + 7]))
            else:
                self.read(h, self.next_bufs(s) if r.random() < 0.4 else None)
        elif k == "close" and self.hs:
            self.close(r.choice(list(self.hs)))
        elif k == "drop" and self.hs:
            self.drop(r.choice(list(self.hs)))
        elif k == "copy" and self.hs and len(self.hs) < 6:
            self.copy(r.choice(list(self.hs)))
        elif k == "isopen" and self.hs:
            self.isopen(r.choice(list(self.hs)))
        elif k == "seek":
            rs = [h for h in self.hs if self.key(h) == "s"]
            if rs:
                h = r.choice(rs)
                self.put("r.seek", dict(op="seek", h=h), s=h, i=r.choice([0, 1, 5]))
        elif k == "counts":
            self.counts()
            self.childcounts()

    def finale(self):
        """Everything that was stored can be read back"""
        self.counts()
        for h in list(self.hs):
            self.isopen(h)
        for h in list(self.hs):
            if self.r.random() < 0.5:
                self.close(h)
            if self.r.random() < 0.5:
                self.close(h)
            self.drop(h)
            self.counts()
        self.childcounts()
        for f in list(self.files):
            if self.files[f]["open"]:
                self.readback(f)
                self.closef(f)
        for p in sorted(self.saved):
            keep = dict(self.saved)
            self.saved = {p: keep[p]}
            if self.r.random() < 0.15:
                self.damage()
            self.openr()
            self.saved = keep
            f = list(self.files)[-1]
            self.childcounts()
            self.readback(f)
            self.closef(f)
        self.counts()

    def readback(self, f):
        for v in [v for v in self.vecs.values() if v.f == f and v.att and not v.lost]:
            b = self.good(v, max(1, v.recs + 1), False)
            h = "h%d" % (self.n + 1)
            self.new("r", v, b)
            if h in self.hs:
                self.read(h)
                self.read(h)
                self.drop(h)


def post(prog):
    evs = events_of(prog)
    for e in evs:
        if e["op"] in ("write", "writewith", "read", "readwith"):
            e.setdefault("res", e["r"])
            if e["op"].startswith("read"):
                e.setdefault("n", 0)
                e.setdefault("runs", [])
                e.setdefault("clean", True)
            if e["r"] != "ok" and not e["r"].startswith("Error"):
                e["res"] = e["r"]
    return evs


def program(rng, steps, dense=False):
    seed = rng.randrange(1 << 60)

    def make(wd):
        w = World(random.Random(seed), wd)
        w.openw()
        w.newvec("f1", True)
        if w.r.random() < 0.5:
            w.newvec("f1", True)
        for _ in range(w.r.randint(steps // 3, steps)):
            n = len(w.cmds)
            w.step()
            if dense and len(w.cmds) > n:
                w.counts()
        w.finale()
        return w.cmds
    return make


def check_p13(ck):
    exe = build("asan")
    ck.model("MC_Session", "MC_Session_deep.cfg" if ck.thorough else None)
    mul = 12 if ck.thorough else 1
    r = ck.rng
    progs = [program(r, 40, True) for _ in range(1200 * mul)] + [program(r, 150) for _ in range(300 * mul)]
    ck.conform(exe, "Trace_Session", progs, "P13 programs", post=post)
    return ck.finish("model_checking", "random histories of sessions over several vectors and files, with a third of the buffer lists and calls breaking a rule; "
                     "counts, open state and stored records are observed after the steps and everything stored is read back")


CHECKS = {"P13": check_p13}

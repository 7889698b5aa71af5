"""Random write/read programs for compressed vectors (input selection only; TLC is the oracle)."""
from core import Cmd

I64MIN, I64MAX = -(1 << 63), (1 << 63) - 1
REPS = {"Int8": (-128, 127), "UInt8": (0, 255), "Int16": (-32768, 32767), "UInt16": (0, 65535),
        "Int32": (-(1 << 31), (1 << 31) - 1), "UInt32": (0, (1 << 32) - 1), "Int64": (I64MIN, I64MAX)}


def int_range(rng, bits=None):
    b = rng.randint(0, 64) if bits is None else bits
    if b == 0:
        v = rng.choice([0, 1, -1, I64MIN, I64MAX, rng.randint(-1000, 1000)])
        return v, v
    span = rng.choice([(1 << b) - 1, 1 << (b - 1), rng.randint(1 << (b - 1), (1 << b) - 1)])
    lo_max = I64MAX - span
    lo = rng.choice([0, I64MIN, lo_max, -span // 2, rng.randint(-5, 5), rng.randint(I64MIN, lo_max)])
    lo = max(I64MIN, min(lo, lo_max))
    return lo, lo + span


class Leaf:
    def __init__(self, kind, path):
        self.kind, self.path = kind, path
        self.min = self.max = 0
        self.scaled = False
        self.scale, self.offset = 1.0, 0.0
        self.maxlen = 0
        self.mode = 0

    def est(self):
        """estimated stored bits per record"""
        if self.kind == "int":
            return (self.max - self.min).bit_length()
        return {"f32": 32, "f64": 64, "str": 8 * (self.maxlen // 8 + 22)}[self.kind]

    def reps(self, writing):
        """(rep, conversion required) choices"""
        if self.kind == "f64":
            return [("Real64", False)]
        if self.kind == "f32":
            return [("Real32", False), ("Real64", False)]
        if self.kind == "str":
            return [("UString", False)]
        out = [(r, False) for r, (a, b) in REPS.items() if a <= self.min and self.max <= b]
        if abs(self.min) <= 1 << 53 and abs(self.max) <= 1 << 53:
            out.append(("Real64", True))
        if abs(self.min) <= 1 << 24 and abs(self.max) <= 1 << 24:
            out.append(("Real32", True))
        if self.min >= 0 and self.max <= 1:
            out.append(("Bool", True))
        return out


def make_leaf(rng, path, bits=None, kinds=None, strlen=None):
    k = rng.choice(kinds or ["int"] * 5 + ["sint"] * 2 + ["f32", "f64", "str"])
    lf = Leaf("int" if k == "sint" else k, path)
    if lf.kind == "int":
        lf.min, lf.max = int_range(rng, bits)
        lf.scaled = k == "sint"
        if lf.scaled:
            lf.scale = rng.choice([1.0, 0.001, 0.5, 2.0, -0.25, 1e-6])
            lf.offset = rng.choice([0.0, 0.0, 100.0, -7.25])
    elif lf.kind == "str":
        lf.maxlen = strlen or rng.choice([0, 3, 20, 130, 300, 1019, 1020, 1021, 1500, 3000])
    return lf


class Proto:
    """A random prototype: commands that build it, and its leaves in bytestream order."""

    def __init__(self, rng, f, pre, nleaves, depth=2, kinds=None, bits=None, strlen=None):
        self.cmds, self.leaves = [], []
        self.f, self.pre, self.rng = f, pre, rng
        self.n = 0
        self.kinds, self.bits, self.strlen = kinds, bits, strlen
        self.root = self._new("Structure")
        self._fill(self.root, "", nleaves, depth, False)

    def _h(self):
        self.n += 1
        return "%sn%d" % (self.pre, self.n)

    def _new(self, t, **kw):
        h = self._h()
        self.cmds.append(Cmd("node.new", f=self.f, n=h, type=t, **kw))
        return h

    def _leafnode(self, lf):
        if lf.kind == "int" and lf.scaled:
            return self._new("ScaledInteger", value=lf.min, min=lf.min, max=lf.max, scale=repr(lf.scale), offset=repr(lf.offset))
        if lf.kind == "int":
            return self._new("Integer", value=lf.min, min=lf.min, max=lf.max)
        if lf.kind == "f32":
            return self._new("Float", value="0", prec="single")
        if lf.kind == "f64":
            return self._new("Float", value="0", prec="double")
        return self._new("String", value="")

    def _fill(self, parent, base, nleaves, depth, vector):
        rng = self.rng
        i = 0
        while nleaves > 0:
            name = str(i) if vector else rng.choice("abcdefgh") + str(i)
            path = base + name
            i += 1
            take = rng.randint(1, nleaves) if depth > 0 and rng.random() < 0.35 else 0
            if rng.random() < 0.04:
                c = self._new("Structure") if rng.random() < 0.5 else self._new("Vector", hetero=rng.randrange(2))
            elif take:
                if rng.random() < 0.5:
                    c = self._new("Structure")
                    self._fill(c, path + "/", take, depth - 1, False)
                else:
                    c = self._new("Vector", hetero=1)
                    self._fill(c, path + "/", take, depth - 1, True)
                nleaves -= take
            else:
                lf = make_leaf(rng, path, bits=self.bits(rng) if self.bits else None, kinds=self.kinds, strlen=self.strlen)
                c = self._leafnode(lf)
                self.leaves.append(lf)
                nleaves -= 1
            if vector:
                self.cmds.append(Cmd("node.append", n=parent, c=c))
            else:
                self.cmds.append(Cmd("node.set", n=parent, path=name, c=c))


def bufspec(rng, leaves, ids, cap, writing, fancy=True):
    """Choose representation, conversion and stride for each buffer; returns a template with %d for cap."""
    items = []
    for lf in leaves:
        rep, need = rng.choice(lf.reps(writing))
        conv = 1 if need or (fancy and rng.random() < 0.2) else 0
        extra = 0 if rep == "UString" or not fancy else rng.choice([0, 0, 0, 1, 3, 8, 13] + ([120, 256, 1000] if cap < 2000 else []))
        # Bool, floats and wider types may be placed at any stride, keep natural alignment for the sanitizer
        size = {"Int8": 1, "UInt8": 1, "Bool": 1, "Int16": 2, "UInt16": 2, "Int32": 4, "UInt32": 4, "Real32": 4}.get(rep, 8)
        extra = extra - extra % size if size > 1 else extra
        items.append("%s:%s:%%d:%d:%d:0" % (ids[lf.path], rep, extra, conv))
    return items


def spec_at(items, cap):
    return ",".join(i % cap for i in items)


def transfer_program(rng, prof):
    """prof: dict with nvec, nleaves, nrec (callables), reading style. Returns wd -> [Cmd]."""
    seed = rng.randrange(1 << 60)

    def make(wd):
        import random
        r = random.Random(seed)
        return _transfer(r, prof, wd)
    return make


def blob(cmds, r, f, k, root):
    ln = r.choice([0, 1, 3, 4, 16, 1000, 1019, 1020, 1021, 2040, 5000])
    h = "blob%d" % k
    cmds.append(Cmd("node.new", f=f, n=h, type="Blob", len=ln))
    cmds.append(Cmd("node.set", n=root, path="bl%d" % k, c=h))
    if ln:
        cmds.append(Cmd("blob.write", n=h, start=0, count=ln, tag=r.randint(1, 200)))


def _transfer(r, prof, wd):
    path = wd + "/t.e57"
    cmds = [Cmd("imf.open", {"op": "openW"}, f="w", path=path, mode="w"), Cmd("imf.root", f="w", n="root")]
    nvec = prof["nvec"](r)
    vecs = []
    nb = 0
    for k in range(nvec):
        v = "v%d" % (k + 1)
        pr = Proto(r, "w", v, prof["nleaves"](r), prof.get("depth", lambda q: q.choice([0, 1, 2, 3]))(r), prof.get("kinds"), prof.get("bits"), prof.get("strlen"))
        ids = {}
        for j, lf in enumerate(pr.leaves):
            ids[lf.path] = "%sf%d" % (v, j)
            cmds.append(Cmd("fld", id=ids[lf.path], path=lf.path, kind=lf.kind, min=lf.min, max=lf.max,
                            seed=r.randrange(1 << 40), maxlen=lf.maxlen, mode=1 if r.random() < 0.15 else 0))
        n = prof["nrec"](r)
        per = sum(lf.est() for lf in pr.leaves) / 8 + 0.01
        n = int(min(n, prof.get("maxbytes", 300000) / per))
        vecs.append([v, pr, ids, n, False])
    order = list(range(nvec))
    r.shuffle(order)
    # create vectors, some before and some after others are written
    for k in order:
        v, pr, ids, n, _ = vecs[k]
        if r.random() < 0.4:
            nb += 1
            blob(cmds, r, "w", nb, "root")
        cmds += pr.cmds
        cmds.append(Cmd("node.new", f="w", n=v + "cod", type="Vector", hetero=1))
        cmds.append(Cmd("node.new", f="w", n=v, type="CompressedVector", proto=pr.root, codecs=v + "cod"))
        cmds.append(Cmd("node.set", {"op": "vector", "v": v}, n="root", path="vec" + v, c=v))
    r.shuffle(order)
    for k in order:
        v, pr, ids, n, _ = vecs[k]
        if n == 0 and r.random() < 0.3:
            continue  # vector that is never written
        _write(cmds, r, prof, v, pr, ids, n)
        vecs[k][4] = True
        if r.random() < 0.3:
            nb += 1
            blob(cmds, r, "w", nb, "root")
        if r.random() < prof.get("readback", 0.15):
            _read(cmds, r, prof, v, v, pr, ids, n, "s1")
    cmds.append(Cmd("imf.close", {"op": "closeFile"}, f="w"))
    cmds.append(Cmd("node.dropall"))
    cmds.append(Cmd("imf.drop", f="w"))
    pol = r.choice([100, 100, 100, 50, 25, 0])
    if r.random() < 0.25:
        cmds.append(Cmd("imf.openbuf", {"op": "reopen"}, f="r", path=path, policy=pol))
    else:
        cmds.append(Cmd("imf.open", {"op": "reopen"}, f="r", path=path, mode="r", policy=pol))
    cmds.append(Cmd("imf.root", f="r", n="root"))
    r.shuffle(order)
    for k in order:
        v, pr, ids, n, written = vecs[k]
        cmds.append(Cmd("node.get", n="root", path="vec" + v, **{"as": v}))
        cmds.append(Cmd("node.childCount", {"op": "count", "vec": v}, n=v))
        if not written:
            continue
        for rep in range(prof["readers"](r)):
            _read(cmds, r, prof, v, v, pr, ids, n, "s%d" % (rep % 8 + 1))
    cmds.append(Cmd("imf.close", {"op": "closeFile"}, f="r"))
    return cmds


def _write(cmds, r, prof, v, pr, ids, n):
    leaves = list(pr.leaves)
    if r.random() < 0.5:
        r.shuffle(leaves)
    cap = max(1, prof["wcap"](r, n))
    items = bufspec(r, leaves, ids, cap, True)
    cmds.append(Cmd("w.new", {"op": "writer", "v": v, "cap": cap}, w="w", n=v, bufs=spec_at(items, cap)))
    done = 0
    while done < n:
        left = n - done
        k = min(left, r.choice([cap, cap, cap, r.randint(0, cap), r.randint(1, cap)]))
        if r.random() < prof.get("swap", 0.1):
            cap = max(1, prof["wcap"](r, n))
            k = min(k, cap)
            cmds.append(Cmd("w.write", {"op": "write", "start": done, "k": k, "cap": cap}, w="w", n=k, start=done, bufs=spec_at(items, cap)))
        else:
            cmds.append(Cmd("w.write", {"op": "write", "start": done, "k": k, "cap": cap}, w="w", n=k, start=done))
        done += k
    cmds.append(Cmd("w.close", {"op": "closeWriter"}, w="w"))
    cmds.append(Cmd("w.drop", w="w"))


def _read(cmds, r, prof, v, h, pr, ids, n, s):
    leaves = list(pr.leaves)
    if r.random() < prof.get("subset", 0.3):
        leaves = r.sample(leaves, r.randint(1, len(leaves)))
    if r.random() < 0.5:
        r.shuffle(leaves)
    cap = max(1, prof["rcap"](r, n))
    items = bufspec(r, leaves, ids, cap, False)
    cmds.append(Cmd("r.new", {"op": "reader", "s": s, "v": v, "cap": cap, "nf": len(leaves)}, s=s, n=h, bufs=spec_at(items, cap)))
    pos, after = 0, 0
    stop = r.randint(0, n) if r.random() < prof.get("partial", 0.1) else None
    while True:
        if r.random() < prof.get("rswap", 0.1):
            cap = max(1, prof["rcap"](r, n))
            cmds.append(Cmd("r.read", {"op": "read", "s": s, "cap": cap}, s=s, total=n, bufs=spec_at(items, cap)))
        else:
            cmds.append(Cmd("r.read", {"op": "read", "s": s, "cap": cap}, s=s, total=n))
        pos = min(n, pos + cap)
        if stop is not None and pos >= stop:
            break
        if pos >= n:
            after += 1
            if after > prof.get("after", lambda q: q.randint(1, 3))(r):
                break
    cmds.append(Cmd("r.close", {"op": "closeReader", "s": s}, s=s))
    cmds.append(Cmd("r.drop", s=s))

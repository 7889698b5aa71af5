"""P18: blobs."""
import json
import random

from core import Cmd, build, events_of

HUGE = 500000000   # anything larger is reported to the specification as this much


def clamp(v):
    return max(-HUGE, min(HUGE, v))


class World:
    def __init__(self, r, wd):
        self.r = r
        self.path = "%s/b%x.e57" % (wd, r.randrange(1 << 48))
        self.cmds = []
        self.blobs = {}     # b -> dict(len, att, name)
        self.vecs = {}      # v -> (n, path)
        self.n = 0
        self.phase = "write"
        self.writer = None
        self.put("imf.open", dict(op="openw"), f="f", path=self.path, mode="w")
        self.put("imf.root", None, f="f", n="root")
        self.put("node.new", None, f="f", n="st", type="Structure")
        self.put("node.set", None, n="root", path="st", c="st")
        self.put("node.new", None, f="f", n="ve", type="Vector", hetero=1)
        self.put("node.set", None, n="root", path="ve", c="ve")
        self.nve = 0

    def put(self, op, ev, **a):
        self.cmds.append(Cmd(op, ev=ev, **a))

    def uid(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def length(self):
        r = self.r
        return r.choice([0, 1, 2, 3, 4, 5, 15, 16, 17, r.randint(0, 40), r.randint(900, 1100), 940, 956, 1003, 1004, 1019, 1020, 1021, 1024,
                         r.randint(1900, 2100), 2024, 2040, r.randint(1, 9000), r.randint(1, 9000)])

    def new(self, n):
        b = self.uid("b")
        self.put("node.new", dict(op="new", b=b, len=clamp(n)), f="f", n=b, type="Blob", len=n)
        if n >= 0 and self.phase == "write":
            self.blobs[b] = dict(len=n, att=False, name="")
        return b

    def attach(self, b):
        x = self.blobs[b]
        k = self.r.choice(["root", "st", "ve", "path"])
        if k == "ve":
            x["name"] = "ve/%d" % self.nve
            self.nve += 1
            self.put("node.append", dict(op="attach", b=b, name=x["name"]), n="ve", c=b)
        elif k == "st":
            x["name"] = "st/" + b
            self.put("node.set", dict(op="attach", b=b, name=x["name"]), n="st", path=b, c=b)
        elif k == "path":
            x["name"] = "st/" + b
            self.put("node.set", dict(op="attach", b=b, name=x["name"]), n="root", path="/st/" + b, c=b)
        else:
            x["name"] = b
            self.put("node.set", dict(op="attach", b=b, name=x["name"]), n="root", path=b, c=b)
        x["att"] = True

    def span(self, n):
        """start and count, mostly inside 0..n"""
        r = self.r
        k = r.random()
        if k < 0.82:
            start = r.choice([0, n, r.randint(0, n), r.randint(0, n), max(0, n - r.randint(0, 5))])
            left = n - start
            return start, r.choice([0, 1 if left else 0, left, left, r.randint(0, left), r.randint(0, min(left, 30))])
        if k < 0.92:
            start = r.randint(0, n + 3)
            return start, max(0, n - start) + r.choice([1, 1, 2, 1000, (1 << 32) - 1, 1 << 32, 1 << 33, (1 << 63) - 1, -1, -2, -(1 << 31), -start if start else -1])
        start = r.choice([-1, -2, -n - 1, n + 1, n + 2, 1 << 31, 1 << 32, (1 << 32) + (n // 2), (1 << 63) - 1, -(1 << 63), -(1 << 32), 1 << 62])
        return start, r.choice([0, 1, n, 2, max(0, -start) if start > -100000 else 1])

    def read(self, b, s=None):
        start, n = s or self.span(self.blobs[b]["len"])
        self.put("blob.read", dict(op="read", b=b, start=clamp(start), n=clamp(n)), n=b, start=start, count=n)

    def write(self, b, s=None):
        start, n = s or self.span(self.blobs[b]["len"])
        t = self.r.randint(1, 254)
        self.put("blob.write", dict(op="write", b=b, start=clamp(start), n=clamp(n), tag=t), n=b, start=start, count=n, tag=t)

    def bytes(self, b):
        self.put("blob.byteCount", dict(op="bytes", b=b), n=b)

    def whole(self):
        for b, x in self.blobs.items():
            self.bytes(b)
            self.read(b, (0, x["len"]))

    def open_writer(self):
        v = self.uid("v")
        self.put("node.new", None, f="f", n=v + "p", type="Structure")
        self.put("node.new", None, f="f", n=v + "i", type="Integer", value=0, min=-500, max=70000)
        self.put("node.set", None, n=v + "p", path="a", c=v + "i")
        self.put("node.new", None, f="f", n=v + "s", type="String", value="")
        self.put("node.set", None, n=v + "p", path="s", c=v + "s")
        self.put("node.new", None, f="f", n=v + "c", type="Vector", hetero=1)
        self.put("node.new", None, f="f", n=v, type="CompressedVector", proto=v + "p", codecs=v + "c")
        self.put("node.set", None, n="root", path="vec" + v, c=v)
        self.put("fld", None, id=v + "fa", path="a", kind="int", min=-500, max=70000, seed=self.r.randrange(1 << 40))
        self.put("fld", None, id=v + "fs", path="s", kind="str", seed=self.r.randrange(1 << 40), maxlen=self.r.choice([3, 30, 200]))
        self.put("w.new", None, w=v, n=v, bufs="%sfa:Int32:2000:0:0:0,%sfs:UString:2000:0:0:0" % (v, v))
        self.writer = [v, 0]

    def write_records(self):
        v, n = self.writer
        k = self.r.choice([1, 10, 100, 700, 2000])
        self.put("w.write", None, w=v, n=k, start=n)
        self.writer[1] += k

    def close_writer(self):
        v, n = self.writer
        self.put("w.close", dict(op="vector", vec=v, n=n), w=v)
        self.put("w.drop", None, w=v)
        self.vecs[v] = n
        self.writer = None

    def read_vecs(self):
        for v, n in self.vecs.items():
            self.put("r.all", dict(op="readvec", vec=v), n=v, total=n, bufs="%sfs:UString:1000:0:0:0,%sfa:Int64:1000:0:0:0" % (v, v))

    def tree(self):
        self.put("node.dump", dict(op="tree"), n="root")

    def step(self):
        r = self.r
        k = r.random()
        att = [b for b in self.blobs if self.blobs[b]["att"]]
        if k < 0.12 and len(self.blobs) < 9 and self.writer is None:
            b = self.new(r.choice([-1, -5, -(1 << 63)]) if r.random() < 0.15 else self.length())
            if b in self.blobs and r.random() < 0.8:
                self.attach(b)
        elif k < 0.16:
            un = [b for b in self.blobs if not self.blobs[b]["att"]]
            if un:
                self.attach(r.choice(un))
        elif k < 0.24:
            if self.writer is None:
                if len(self.vecs) < 3:
                    self.open_writer()
            elif r.random() < 0.5:
                self.write_records()
            else:
                self.close_writer()
        elif k < 0.27 and self.writer is None:
            self.read_vecs()
        elif k < 0.6 and self.blobs:
            self.write(r.choice(att) if att and r.random() < 0.9 else r.choice(list(self.blobs)))
        elif k < 0.95 and self.blobs:
            self.read(r.choice(list(self.blobs)))
        elif self.blobs:
            self.bytes(r.choice(list(self.blobs)))

    def finish(self):
        r = self.r
        if self.writer:
            self.close_writer()
        self.whole()
        self.read_vecs()
        self.tree()
        self.put("imf.close", dict(op="close"), f="f")
        self.phase = "closed"
        if r.random() < 0.3 and self.blobs:
            b = r.choice(list(self.blobs))
            self.read(b)
            self.write(b)
            self.bytes(b)
            self.new(5)
        self.put("node.dropall", None)
        self.put("imf.drop", None, f="f")
        pol = r.choice([100, 100, 50, 25, 0])
        if r.random() < 0.3:
            self.put("imf.openbuf", dict(op="reopen"), f="f", path=self.path, policy=pol)
        else:
            self.put("imf.open", dict(op="reopen"), f="f", path=self.path, mode="r", policy=pol)
        self.phase = "read"
        self.put("imf.root", None, f="f", n="root")
        self.tree()
        old, self.blobs = self.blobs, {}
        for b, x in old.items():
            if x["att"]:
                c = self.uid("b")
                self.put("node.get", dict(op="find", b=c, old=b, name=x["name"]), n="root", path=x["name"], **{"as": c})
                self.blobs[c] = x
        for v in self.vecs:
            self.put("node.get", None, n="root", path="vec" + v, **{"as": v})
        if r.random() < 0.5:
            self.whole()
        for _ in range(r.randint(0, 12)):
            if not self.blobs:
                break
            b = r.choice(list(self.blobs))
            k = r.random()
            if k < 0.7:
                self.read(b)
            elif k < 0.85:
                self.write(b)
            elif k < 0.9:
                self.new(r.choice([0, 4, -1]))
            else:
                self.bytes(b)
        self.read_vecs()
        self.whole()
        self.put("imf.close", dict(op="close"), f="f")


def program(rng, steps):
    seed = rng.randrange(1 << 60)

    def make(wd):
        r = random.Random(seed)
        w = World(r, wd)
        for _ in range(r.randint(steps // 3, steps)):
            w.step()
        w.finish()
        return w.cmds
    return make


def edge_program(rng, lens):
    """A few blobs whose sections meet at page boundaries; every write and read ends or starts next to one"""
    seed = rng.randrange(1 << 60)

    def make(wd):
        r = random.Random(seed)
        w = World(r, wd)
        at = 48
        ws = []
        for n in lens:
            b = w.new(n)
            w.attach(b)
            ws.append((b, at + 16, n))
            at += 16 + n + (-(16 + n)) % 4
        for _ in range(30):
            b, base, n = r.choice(ws)
            edges = [e - base for e in range(0, at + 1021, 1020) if 0 <= e - base <= n] + [0, n]
            a = min(n, max(0, r.choice(edges) + r.randint(-2, 2)))
            z = min(n, max(a, r.choice(edges) + r.randint(-2, 2)))
            if r.random() < 0.5:
                w.write(b, (a, z - a))
            else:
                w.read(b, (a, z - a))
        w.finish()
        return w.cmds
    return make


def big_program(rng, n):
    seed = rng.randrange(1 << 60)

    def make(wd):
        r = random.Random(seed)
        w = World(r, wd)
        b1 = w.new(5)
        b2 = w.new(n)
        b3 = w.new(7)
        for b in (b1, b2, b3):
            w.attach(b)
        w.write(b1, (0, 5))
        w.write(b3, (0, 7))
        for _ in range(8):
            a = r.randint(0, n)
            z = r.randint(a, n)
            w.write(b2, (a, z - a)) if r.random() < 0.6 else w.read(b2, (a, z - a))
        w.finish()
        return w.cmds
    return make


def post(prog):
    evs = events_of(prog)
    for e in evs:
        if e["op"] == "read":
            e.setdefault("runs", [])
        elif e["op"] == "bytes":
            e["v"] = int(e.get("v", -1))
        elif e["op"] == "tree":
            e["t"] = json.dumps(e.pop("tree", "?"), sort_keys=True)
        elif e["op"] == "readvec":
            e.setdefault("n", -1)
            e.setdefault("good", False)
        elif e["op"] == "new":
            e.pop("h", None)
    return evs


def between_packets(wd):
    """A blob created between two packets of an open writer"""
    w = World(random.Random(5), wd)
    w.open_writer()
    for _ in range(6):
        w.put("w.write", None, w=w.writer[0], n=2000, start=w.writer[1])
        w.writer[1] += 2000
    b = w.new(100)
    w.attach(b)
    w.write(b, (0, 100))
    for _ in range(6):
        w.put("w.write", None, w=w.writer[0], n=2000, start=w.writer[1])
        w.writer[1] += 2000
    w.finish()
    return w.cmds


def check_p18(ck):
    exe = build("asan")
    ck.model("MC_Blob", "MC_Blob_deep.cfg" if ck.thorough else None)
    mul = 12 if ck.thorough else 1
    r = ck.rng
    progs = [program(r, 60) for _ in range(1000 * mul)]
    for _ in range(250 * mul):
        progs.append(edge_program(r, [r.choice([r.randint(930, 980), r.randint(1000, 1030), r.randint(0, 40), r.randint(1990, 2060), r.randint(0, 5000)])
                                      for _ in range(r.randint(1, 4))]))
    for k in (12, 30, 120):
        progs += [edge_program(r, [r.choice([0, 1, 4, r.randint(0, 60), r.randint(0, 1100)]) for _ in range(k)]) for _ in range(3 * mul)]
    progs += [big_program(r, n) for n in (65536, 70001, 1 << 20, (1 << 22) + 5) for _ in range(3 * mul)]
    ck.conform(exe, "Trace_Blob", progs, "P18 programs", post=post)
    # known finding: reading the vector fails because its packets are not contiguous
    known = "BlobNode created between two packets of an open CompressedVectorWriter makes the compressed vector unreadable"
    seen = []

    def without_known(prog):
        evs = post(prog)
        lost = [e for e in evs if e["op"] == "readvec" and e["r"] in ("ErrorBadCVPacket", "ErrorInternal")]
        seen.extend(lost)
        return [e for e in evs if e not in lost]
    ck.conform(exe, "Trace_Blob", [between_packets], "blob between packets", post=without_known)
    if seen:
        ck.known_finding(known)
    return ck.finish("model_checking", "random and boundary-directed histories of blob creation, writes and reads (inside and outside the bounds) next to compressed vectors; "
                     "every blob, vector and the tree are read back during writing and after reopen")


CHECKS = {"P18": check_p18}

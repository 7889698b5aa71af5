"""P12: open, close, cancel and drop."""
import itertools
import random

from core import Cmd, build, events_of, pct_out


class World:
    """Mirror of the driver state, used only to choose meaningful commands"""

    def __init__(self, wd, paths):
        self.paths = ["%s/%s.e57" % (wd, p) for p in paths]
        self.wd = wd
        self.h = {}        # handle -> image
        self.img = {}      # image -> dict
        self.cmds = []
        self.n = 0

    def uid(self, p):
        self.n += 1
        return p + str(self.n)

    def handles(self, i):
        return [h for h in self.h if self.h[h] == i]

    def open_images(self, path):
        return [i for i in self.img if self.img[i]["open"] and self.img[i]["path"] == path and not self.img[i]["buf"]]

    def put(self, op, ev, **args):
        self.cmds.append(Cmd(op, ev=ev, **args))

    def stat(self, p):
        self.put("sys.stat", dict(op="stat", p=pct_out(p)), path=p)

    def stats(self):
        for p in self.paths:
            self.stat(p)

    def openw(self, p, fill=True):
        h, i = self.uid("h"), self.uid("i")
        self.put("imf.open", dict(op="openw", h=h, i=i, p=pct_out(p)), f=h, path=p, mode="w")
        self.h[h] = i
        self.img[i] = dict(open=True, mode="w", path=p, buf=False, filled=False, nodes=False)
        if fill:
            self.fill(h)
        return h

    def fill(self, h):
        i = self.h[h]
        if self.img[i]["filled"] or not self.img[i]["open"] or self.img[i]["mode"] == "r":
            return
        self.n += 1
        tag = self.n
        self.put("life.fill", dict(op="fill", h=h, tag=tag), f=h, tag=tag)
        self.img[i]["filled"] = True
        self.img[i]["tag"] = tag

    def openr(self, p, buf, policy, complete):
        h, i = self.uid("h"), self.uid("i")
        self.put("imf.openbuf" if buf else "imf.open", dict(op="openr", h=h, i=i, p=pct_out(p), buf=buf), f=h, path=p, mode="r", policy=policy)
        if complete:
            self.h[h] = i
            self.img[i] = dict(open=True, mode="r", path=p, buf=buf, filled=complete == "full", nodes=False)
        return h

    def copy(self, h):
        g = self.uid("h")
        self.put("imf.copy", dict(op="copy", h=h, g=g), f=h, g=g)
        self.h[g] = self.h[h]

    def nodes(self, h):
        i = self.h[h]
        if self.img[i]["filled"] and self.img[i]["open"] and not self.img[i]["nodes"]:
            self.put("life.handles", None, f=h, n=i)
            self.img[i]["nodes"] = True

    def probe(self, h):
        i = self.h[h]
        if self.img[i]["nodes"]:
            self.n += 1
            self.put("life.probe", dict(op="probe", h=h), f=h, n=i, fresh="z%d" % self.n)

    def content(self, h):
        if self.img[self.h[h]]["filled"]:
            self.put("life.content", dict(op="content", h=h), f=h)

    def close(self, h):
        self.put("imf.close", dict(op="close", h=h), f=h)
        self.img[self.h[h]]["open"] = False

    def cancel(self, h):
        self.put("imf.cancel", dict(op="cancel", h=h), f=h)
        self.img[self.h[h]]["open"] = False

    def drop(self, h):
        i = self.h.pop(h)
        self.put("imf.drop", dict(op="drop", h=h), f=h)
        if not self.handles(i):
            del self.img[i]

    def same(self, h, g):
        self.put("imf.same", dict(op="same", h=h, g=g), f=h, g=g)


def events(prog):
    evs = events_of(prog)
    for e in evs:
        if e["op"] == "content":
            e.setdefault("v", -2)
    return evs


def random_program(rng, length):
    def prog(wd, seed=rng.random()):
        r = random.Random(seed)
        own = "%x" % r.getrandbits(40)
        w = World(wd, [own + x for x in ["p", "q", "é x"][:r.choice([1, 2, 3])]])
        complete = {}
        for _ in range(length):
            x = r.random()
            hs = list(w.h)
            p = r.choice(w.paths)
            if not hs or x < 0.14:
                if not w.open_images(p):
                    complete.pop(p, None)
                    w.openw(p, r.random() < 0.85)
            elif x < 0.28:
                w.openr(p, r.random() < 0.4, r.choice([100, 100, 50, 25, 0]), complete.get(p))
            elif x < 0.36:
                w.copy(r.choice(hs))
            elif x < 0.40:
                w.fill(r.choice(hs))
            elif x < 0.54:
                h = r.choice(hs)
                im = w.img[w.h[h]]
                if im["open"] and im["mode"] == "w":
                    complete[im["path"]] = "full" if im["filled"] else "empty"
                w.close(h)
            elif x < 0.62:
                w.cancel(r.choice(hs))
            elif x < 0.72:
                w.drop(r.choice(hs))
            elif x < 0.86:
                h = r.choice(hs)
                w.nodes(h)
                w.probe(h)
            elif x < 0.92:
                w.content(r.choice(hs))
            elif x < 0.95:
                w.same(r.choice(hs), r.choice(hs))
            elif x < 0.97:
                w.put("imf.open", dict(op="badmode", p=pct_out(p)), f="bad", path=p, mode=r.choice(["rw", "", "W", "a", "r+", "wb", "rb"]))
            elif x < 0.985:
                w.put("imf.open", dict(op="badplace"), f="bad", path=wd + "/no/such/dir.e57", mode=r.choice(["r", "w"]))
            else:
                w.put("imf.open", dict(op="badplace"), f="bad", path=wd, mode="w")
            w.stats()
        for h in list(w.h):
            if w.img.get(w.h[h], {}).get("nodes"):
                w.probe(h)
        for h in r.sample(sorted(w.h), len(w.h)):
            w.drop(h)
            w.stats()
        for p in w.paths:
            w.openr(p, False, 100, complete.get(p) and not w.open_images(p))
        return w.cmds
    return prog


# All short sequences of these on one image, with probes in between
ENDS = ["close", "cancel", "copy", "dropcopy", "reopen", "rewrite", "probe"]


def sequence_program(mode, seq):
    def prog(wd):
        w = World(wd, ["p"])
        p = w.paths[0]
        h = w.openw(p)
        complete = None
        if mode in ("r", "b"):
            w.close(h)
            w.drop(h)
            complete = "full"
            h = w.openr(p, mode == "b", 100, complete)
        w.nodes(h)
        w.probe(h)
        w.stats()
        first = h
        copies = []
        for o in seq:
            im = w.img[w.h[first]]
            if o == "close":
                if im["open"] and im["mode"] == "w":
                    complete = "full"
                w.close(first)
            elif o == "cancel":
                w.cancel(first)
            elif o == "copy":
                w.copy(first)
                copies.append(list(w.h)[-1])
            elif o == "dropcopy":
                if copies:
                    w.drop(copies.pop())
            elif o == "reopen":
                g = w.openr(p, False, 100, complete)
                if complete:
                    w.content(g)
                    w.drop(g)
            elif o == "rewrite":
                if not w.open_images(p):
                    complete = "full"
                    g = w.openw(p)
                    w.close(g)
                    w.drop(g)
            w.probe(first)
            w.stats()
        w.drop(first)
        w.stats()
        for c in copies:
            w.probe(c)
            w.drop(c)
            w.stats()
        return w.cmds
    return prog


def check_p12(ck):
    exe = build("asan")
    ck.model("MC_Life", "MC_Life_deep.cfg" if ck.thorough else None)
    r = ck.rng
    depth = 4 if ck.thorough else 3
    seqs = [s for n in range(depth + 1) for s in itertools.product(ENDS, repeat=n)]
    ck.conform(exe, "Trace_Life", [sequence_program(m, s) for m in "wrb" for s in seqs], "all short histories of one image", post=events)
    ck.conform(exe, "Trace_Life", [random_program(r, r.choice([8, 15, 30])) for _ in range(12000 if ck.thorough else 900)], "random histories", post=events)
    return ck.finish("model_checking", "all histories of up to %d endings, copies and reopens of one image in each mode, random histories over several images and paths" % depth)


CHECKS = {"P12": check_p12}

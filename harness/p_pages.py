"""P05 and P07: checksums of pages; reading from memory."""
import random

from core import Cmd, build
import e57file as e5
import p_layout as pl


def make_file(r, size=1.0):
    """a file of some 10 to 25 pages: vectors in several packets, blobs, an XML section of more than a page"""
    vecs, blobs, vals = [], [], {}
    for k in range(r.choice([1, 1, 2])):
        px, flds = pl.random_fields(r, r.choice([1, 2, 3]), kinds=["int", "f32", "f64", "str"])
        n = r.choice([1, 20, 200, 400])
        n = int(min(n, 5000 * size / (len(flds) * 8)))
        data = [pl.random_values(r, f.kind, f.lo, f.hi, n, 12) for f in flds]
        streams = [e5.encode(f.kind, d, f.lo, f.hi) for f, d in zip(flds, data)]
        m = r.choice([1, 2, 4])
        pk, idx = pl.assemble(r, streams, [pl.cut(r, s, m, "any") for s in streams], r.random() < 0.5)
        vecs.append(("vec%d" % k, px, flds, data, pk, idx, n))
    for i in range(r.choice([1, 2, 3])):
        blobs.append(("blob%d" % i, bytes(r.randrange(256) for _ in range(r.choice([0, 10, 1004, 1020, 2500, int(4000 * size)])))))
    phys = pl.file_of(r, vecs, blobs, r.random() < 0.3, True)
    return phys


def pages(a, b):
    """pages of the logical bytes a..b-1"""
    return set(range(a // e5.PAYLOAD, (b - 1) // e5.PAYLOAD + 1)) if b > a else set()


def page_sets(phys):
    """page sets of: opening, then every item in document order"""
    f = e5.File(phys)
    a = e5.phys2log(f.hdr["xoff"])
    x = pages(a, a + f.hdr["xlen"])
    out = [dict(p="open", must=pages(0, 48) | x, may=pages(0, 48) | x, last={0, max(x)})]
    for e in f.root.walk():
        if e.type not in ("CompressedVector", "Blob"):
            continue
        s = f.section(int(e.attrs["fileOffset"]))
        a = s["at"]
        may = pages(a, a + s["len"])
        if e.type == "Blob":
            n = int(e.attrs["length"])
            must = pages(a + 16, a + 16 + n)
            last = {max(must)} if must else set()
            if not must:
                may = may | pages(a, a + 16)
        else:
            must, last = pages(a, a + 32), set()
            pk = [p for p in f.packets(s) if p["type"] == 1]
            for p in pk:
                used = [i for i, b in enumerate(p["bytes"]) if b]
                if used:
                    must |= pages(p["at"], p["at"] + p["len"] - len(p["pad"]))
                    if not p["pad"]:
                        last |= {max(pages(p["at"], p["at"] + p["len"]))}
            if int(e.attrs["recordCount"]) == 0:
                must, last = pages(a, a + 32), set()
        out.append(dict(p=e.path(), must=must, may=may | must, last=last))
    return out


def tails_file(r):
    """blobs and an XML section that end at the end of a page or a few bytes into it"""
    b = e5.Builder()
    b.skip(4 * r.randrange(300))
    names = []
    for i in range(3):
        at = len(b.log) + 16
        n = e5.PAYLOAD - at % e5.PAYLOAD + r.choice([0, 0, 1, 1, 2, 3, 4, 5]) + r.choice([0, 1, 1, 2]) * e5.PAYLOAD
        names.append(("blob%d" % i, n))
        b.blob("blob%d" % i, bytes(r.randrange(256) for _ in range(n)))
        b.skip(4 * r.randrange(200))
    b.align()
    at, t = len(b.log), r.choice([0, 0, 1, 2, 3, 5])

    def text(pos):
        body = "".join('<%s type="Blob" fileOffset="%d" length="%d"/>' % (nm, pos[nm], n) for nm, n in names)
        need = (t - at - len(e5.doc(body + "<!---->"))) % e5.PAYLOAD
        return e5.doc(body + "<!--" + "x" * need + "-->")
    return b.finish(text)


def page_damage(r, phys, p):
    """damage within one page: pairs of an offset and what is XORed to the byte there"""
    a = p * e5.PAGE
    page = phys[a:a + e5.PAGE]
    kind = r.choice(["bit", "bit", "bit", "burst", "burst", "zerosum", "onesum", "turned", "zero", "half", "shift"])
    if kind in ("bit", "burst"):
        where = r.choice(["any", "any", "crc", "first", "last"])
        off = {"any": r.randrange(e5.PAGE), "crc": r.randrange(1020, 1024), "first": 0, "last": 1019}[where]
        fl = [(a + off, 1 << r.randrange(8))]
        if kind == "burst":
            fl += [(a + min(e5.PAGE - 1, off + k), r.randint(1, 255)) for k in range(1, r.choice([2, 3, 4, 8]))]
        return list(dict(fl).items())
    new = {"zerosum": page[:1020] + b"\0\0\0\0", "onesum": page[:1020] + b"\xff" * 4, "turned": page[:1020] + page[:1019:-1],
           "zero": b"\0" * e5.PAGE, "half": page[:512] + b"\0" * 512, "shift": page[1:] + page[:1]}[kind]
    fl = [(a + i, x ^ y) for i, (x, y) in enumerate(zip(page, new)) if x != y]
    return fl or [(a, 1)]


def scan_program(rng, nflips, policies=(100,), size=1.0, buf=0.15, tails=False):
    seed = rng.randrange(1 << 60)

    def make(wd):
        r = random.Random(seed)
        phys = tails_file(r) if tails else make_file(r, size)
        path = "%s/p%x.e57" % (wd, seed)
        with open(path, "wb") as fp:
            fp.write(phys)
        sets = page_sets(phys)
        caps = r.choice(["1000"] * (6 if tails else 1) + ["7", "64", "1,50"])
        if tails and r.random() < 0.3:  # blobs byte by byte: every page is the last one of a transfer
            caps = "0"
            for s in sets[1:]:
                s["last"] = s["must"]
        cmds = [Cmd("x.all", {"op": "@ref", "sets": [{k: sorted(v) if k != "p" else v for k, v in s.items()} for s in sets]},
                    path=path, hash=1, caps=caps)]
        n = len(phys) // e5.PAGE
        jobs = []
        for pol in policies:
            jobs.append((pol, []))
            for p in range(n):
                for k in range(nflips):
                    fl = page_damage(r, phys, p)
                    if r.random() < 0.15:
                        fl.append((r.randrange(len(phys)), r.randint(1, 255)))
                    jobs.append((pol, fl))
        for pol, fl in jobs:
            fl = list(dict(fl).items())
            ev = {"op": "@scan", "policy": pol, "damaged": sorted({o // e5.PAGE for o, _ in fl}), "crc": all(o % e5.PAGE >= 1020 for o, _ in fl)}
            cmds.append(Cmd("x.all", ev, path=path, hash=1, caps=caps, policy=pol, buf=int(r.random() < buf),
                            flip=",".join("%d:%d" % f for f in fl)))
        return cmds
    return make


def post_scan(prog):
    evs, ref = [], {}
    for c in prog:
        e, res = c.ev, c.res
        if e is None or res["r"] != "ok":
            evs.append({"op": "setup", "cmd": c.op, "r": res["r"]})
            continue
        items = {i["p"]: i for i in res["items"]}
        if e["op"] == "@ref":
            ok = res["open"] == "ok" and res["rest"] == "ok" and all(i["r"] == "ok" for i in res["items"])
            evs.append({"op": "setup", "cmd": "undamaged", "r": "ok" if ok else str([res["open"], res["rest"]] + [i["r"] for i in res["items"]])})
            ref = dict(items, tree=res["tree"])
            names = [s["p"] for s in e["sets"]]
            evs.append({"op": "file", "items": e["sets"]})
            continue
        got = [{"r": res["open"], "correct": res["tree"] == ref["tree"] or res["open"] != "ok"}]
        if res["open"] == "ok":
            for n in names[1:]:
                i = items.get(n)
                if i is None:
                    got.append({"r": "missing", "correct": False})
                else:
                    got.append({"r": i["r"], "correct": (i["n"], i["h"]) == (ref[n]["n"], ref[n]["h"])})
        evs.append({"op": "scan", "policy": e["policy"], "damaged": e["damaged"], "crc": e["crc"], "items": got})
    return evs


def share_program(rng, k, skip):
    seed = rng.randrange(1 << 60)

    def make(wd):
        r = random.Random(seed)
        b = e5.Builder()
        b.skip(skip)
        data = bytes(r.randrange(256) for _ in range(k * e5.PAYLOAD - 300))
        b.blob("blob0", data)
        phys = b.finish(lambda pos: e5.doc('<blob0 type="Blob" fileOffset="%d" length="%d"/>' % (pos["blob0"], len(data))))
        path = "%s/s%x.e57" % (wd, seed)
        with open(path, "wb") as fp:
            fp.write(phys)
        at = e5.phys2log(b.pos["blob0"]) + 16
        ps = sorted(pages(at, at + len(data)))
        cmds = []
        for pol in (25, 50, 100):
            for p in ps:
                if p == 0:
                    continue
                cmds.append(Cmd("x.all", {"op": "@share", "policy": pol, "page": p, "pages": ps}, path=path, hash=1, caps="1000000", policy=pol,
                                buf=0, flip="%d:%d" % (p * e5.PAGE + r.randrange(1024), 1 << r.randrange(8))))
        return cmds
    return make


def post_share(prog):
    evs, found = [], {}
    for c in prog:
        if c.res["r"] != "ok":
            evs.append({"op": "setup", "cmd": c.op, "r": c.res["r"]})
            continue
        e = c.ev
        s = found.setdefault(e["policy"], [set(), e["pages"]])
        bl = c.res["items"][0]["r"] if c.res["items"] else c.res["open"]
        if bl == "ErrorBadChecksum":
            s[0].add(e["page"])
    for pol, (seen, ps) in sorted(found.items()):
        # a page that is also needed to open the file counts as noticed
        if ps[0] == 0:
            ps = ps[1:]
        evs.append({"op": "share", "policy": pol, "k": len(ps), "noticed": sorted(ps.index(p) + 1 for p in seen)})
    return evs


def check_p05(ck):
    exe = build("asan")
    ck.model("MC_Pages", "MC_Pages_deep.cfg" if ck.thorough else None)
    r = ck.rng
    mul = 8 if ck.thorough else 1
    ck.conform(exe, "Trace_Pages", [scan_program(r, 10) for _ in range(60 * mul)], "all checksums", post=post_scan)
    ck.conform(exe, "Trace_Pages", [scan_program(r, 3, policies=(50, 25, 0)) for _ in range(60 * mul)], "cheaper policies", post=post_scan)
    ck.conform(exe, "Trace_Pages", [scan_program(r, 4, policies=(100, 50, 25), tails=True) for _ in range(40 * mul)], "ends of items", post=post_scan)
    ck.conform(exe, "Trace_Pages", [share_program(r, k, s) for k in (2, 5, 9, 16, 30) for s in (4, 1020, 2040, 3060)], "shares", post=post_share)
    return ck.finish("model_checking", "every page of generated files damaged in several ways (bits and bursts in data and checksum, checksum cleared, "
                     "set or turned round, page cleared or shifted), alone and together; items ending a few bytes into a page; "
                     "all four policies; every item of the file read each time")


# ---------------------------------------------------------------------------------------- memory buffers

def mutilate(r, phys):
    """a file that is not quite right; checksums are usually made valid again"""
    k = r.choice(["byte", "byte", "word", "header", "section", "xml", "xml", "cut", "tail", "swap", "grow"])
    f = e5.File(phys)
    log = bytearray(f.log)
    x = e5.phys2log(f.hdr["xoff"])
    if k == "byte":
        for _ in range(r.choice([1, 1, 3])):
            log[r.randrange(len(log))] ^= 1 << r.randrange(8)
    elif k == "word":
        a = r.randrange(0, len(log) - 8, 4)
        log[a:a + 8] = r.choice([b"\0" * 8, b"\xff" * 8, (1 << 62).to_bytes(8, "little"), len(phys).to_bytes(8, "little"), b"\x01" + b"\0" * 7])
    elif k == "header":
        a = r.choice([0, 8, 12, 16, 24, 32, 40])
        n = 4 if a in (8, 12) else 8
        v = int.from_bytes(log[a:a + n], "little")
        v = r.choice([v + 1, max(0, v - 1), v + 4, max(0, v - 4), 0, v * 2, len(phys), len(phys) + 1024, len(phys) - 1, 1 << 31, (1 << 63) - 1, (1 << 64) - 1, 1023, 1020, 4])
        log[a:a + n] = (v & ((1 << 8 * n) - 1)).to_bytes(n, "little")
    elif k == "section":
        es = f.vectors() + f.blobs()
        if es:
            s = f.section(int(r.choice(es).attrs["fileOffset"]))
            a = s["at"] + r.choice([0, 1, 8, 8, 16, 24, 32, 33, 34, 36, 38])
            v = int.from_bytes(log[a:a + 2], "little")
            v = r.choice([v + 1, v - 1, v + 4, v - 4, 0, 0xffff, v ^ 0x100, r.randrange(65536)]) & 0xffff
            log[a:a + 2] = v.to_bytes(2, "little")
    elif k == "xml":
        t = bytes(log[x:x + f.hdr["xlen"]])
        new = r.choice([lambda t: t.replace(b"fileOffset=\"", b"fileOffset=\"1", 1), lambda t: t.replace(b"recordCount=\"", b"recordCount=\"9", 1),
                        lambda t: t.replace(b"length=\"", b"length=\"7", 1), lambda t: t.replace(b"Blob", b"Bolb", 1), lambda t: t.replace(b">", b"", 1),
                        lambda t: t.replace(b"minimum=\"", b"minimum=\"1", 1), lambda t: t.replace(b"Integer", b"String", 1),
                        lambda t: t.replace(b"fileOffset=\"", b"fileOffset=\"99999999", 1), lambda t: t[:len(t) // 2]])(t)
        log[x:x + len(new)] = new
        log[32:40] = len(new).to_bytes(8, "little")
        if len(log) % e5.PAYLOAD:
            log[16:24] = ((len(log) // e5.PAYLOAD + 1) * e5.PAGE).to_bytes(8, "little")
    elif k in ("cut", "tail", "grow"):
        n = {"cut": r.choice([0, 1, 47, 48, 100, 1023, 1024, 1025, 2048, len(phys) - 1024, len(phys) - 1, len(phys) - 4, r.randrange(len(phys))]),
             "tail": len(phys) - e5.PAGE * r.randint(1, 3), "grow": len(phys)}[k]
        n = max(0, n)
        out = phys[:n] + (b"\0" * r.choice([1, 512, 1024, 2048]) if k == "grow" else b"")
        if r.random() < 0.6 and len(out) >= e5.PAGE:
            out = bytearray(out)
            out[16:24] = len(out).to_bytes(8, "little")
            out = e5.reseal(bytes(out))
        return bytes(out)
    elif k == "swap":
        a, b = r.randrange(len(phys) // e5.PAGE), r.randrange(len(phys) // e5.PAGE)
        out = bytearray(phys)
        out[a * 1024:a * 1024 + 1024], out[b * 1024:b * 1024 + 1024] = phys[b * 1024:b * 1024 + 1024], phys[a * 1024:a * 1024 + 1024]
        return bytes(out)
    return e5.seal(bytes(log)) if r.random() < 0.85 else e5.seal(bytes(log))[:-r.randrange(1, 1024)]


def pair_program(rng, prof):
    seed = rng.randrange(1 << 60)

    def make(wd):
        r = random.Random(seed)
        phys = make_file(r, r.choice([0.3, 1.0]))
        path = "%s/m%x.e57" % (wd, seed)
        cmds = []
        for j in range(6):
            p = "%s.%d" % (path, j)
            data = phys if prof == "valid" else mutilate(r, phys)
            if prof == "mutilated" and r.random() < 0.2:
                data = mutilate(r, phys)
            with open(p, "wb") as fp:
                fp.write(data)
            pol = r.choice([100, 100, 50, 25, 0])
            caps = r.choice(["1000", "7", "64", "1,50", "3,200"])
            flip = ""
            if prof == "damaged":
                with open(p, "wb") as fp:
                    fp.write(phys)
                flip = ",".join("%d:%d" % (r.randrange(len(phys)), r.randint(1, 255)) for _ in range(r.choice([1, 1, 2, 5])))
            only = r.choice(["", "", "0", "1", "1,0"])
            for buf in (0, 1):
                a = dict(path=p, hash=1, caps=caps, policy=pol, buf=buf, fresh=int(j % 2), only=only)
                if flip:
                    a["flip"] = flip
                cmds.append(Cmd("x.all", {"op": "@pair", "valid": prof == "valid"}, **a))
            if not flip:
                sd = r.randrange(1 << 30)
                for buf in (0, 1):
                    cmds.append(Cmd("x.seq", {"op": "@pair", "valid": prof == "valid"}, path=p, seed=sd, steps=40, policy=pol, buf=buf))
        return cmds
    return make


def post_pair(prog):
    evs, first = [], None
    for c in prog:
        if c.res["r"] != "ok":
            evs.append({"op": "setup", "cmd": c.op, "r": c.res["r"]})
            continue
        res = {k: v for k, v in c.res.items() if k not in ("r", "intact")}
        if first is None:
            first = res
        else:
            evs.append({"op": "pair", "disk": first, "mem": res, "intact": c.res["intact"], "valid": c.ev["valid"]})
            first = None
    return evs


def check_p07(ck):
    exe = build("asan")
    ck.model("MC_Pages", "MC_Pages_deep.cfg" if ck.thorough else None)
    r = ck.rng
    mul = 10 if ck.thorough else 1
    ck.conform(exe, "Trace_Pages", [pair_program(r, "valid") for _ in range(80 * mul)], "valid files", post=post_pair)
    ck.conform(exe, "Trace_Pages", [pair_program(r, "damaged") for _ in range(80 * mul)], "damaged files", post=post_pair)
    ck.conform(exe, "Trace_Pages", [pair_program(r, "mutilated") for _ in range(160 * mul)], "malformed files", post=post_pair)
    return ck.finish("model_checking", "the same calls on the file and on a buffer of exactly its size; valid, damaged, malformed and cut files; "
                     "whole-file reads and mixed orders of several readers and blobs; all policies")


CHECKS = {"P05": check_p05, "P07": check_p07}

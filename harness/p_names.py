"""P11: names, paths and extensions."""
import itertools

from core import Cmd, build, events_of

DEFAULT_URI = "http://www.astm.org/COMMIT/E57/2010-e57-v1.0"


def enc(b):
    return list(b if isinstance(b, bytes) else b.encode("utf-8"))


def unpct(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == "%":
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return out


def name_events(prog):
    evs = events_of(prog)
    for e in evs:
        if e["op"] == "name" and e["r"] == "ok":
            x = {k: e.pop(k) for k in ("ext", "parse", "p", "l", "set", "def", "get", "kids", "kid", "buf")}
            for k in ("p", "l", "kid"):
                x[k] = unpct(x[k])
            e["x"] = x
        elif e["op"] in ("path", "byPrefix", "byUri"):
            e["v"] = unpct(e.get("v", ""))
            e.setdefault("found", "")
        elif e["op"] == "list":
            e["exts"] = [[unpct(p), unpct(u)] for p, u in e.get("exts", [])]
    return evs


def opened(wd, exts, f="f"):
    cmds = [Cmd("imf.open", ev=dict(op="open", f=f), f=f, path=wd + "/%s.e57" % f, mode="w")]
    for p, u in exts:
        cmds.append(add(p, u, f))
    return cmds


def add(p, u, f="f"):
    return Cmd("ext.add", ev=dict(op="add", f=f, p=enc(p), u=enc(u)), f=f, prefix=p, uri=u)


def judge(b, f="f"):
    return Cmd("nm.all", ev=dict(op="name", f=f, s=enc(b)), f=f, name=bytes(b))


def names_program(names, exts=()):
    def prog(wd):
        return opened(wd, exts) + [judge(b) for b in names]
    return prog


# a fixed tree for lookups
TREE = ["a", "a/b", "a/b/a", "a/v", "a/v/0", "a/v/1", "a/v/1/a", "e:a", "e:a/e:b", "b"]
KIND = {"a": "S", "a/b": "S", "a/b/a": "I", "a/v": "V", "a/v/0": "I", "a/v/1": "S", "a/v/1/a": "I", "e:a": "S", "e:a/e:b": "I", "b": "I"}


def lookup_program(paths, save):
    def prog(wd):
        cmds = opened(wd, [("e", "urn:e")])
        cmds.append(Cmd("imf.root", f="f", n="R"))
        cmds.append(Cmd("node.new", f="f", n="pre", type="Integer", value=1))
        h = {"": "R"}
        for p in TREE:
            h[p] = "n" + p
            par, _, nm = p.rpartition("/")
            t = {"S": dict(type="Structure"), "I": dict(type="Integer", value=1), "V": dict(type="Vector", hetero=1)}[KIND[p]]
            cmds.append(Cmd("node.new", f="f", n=h[p], **t))
            if KIND.get(par) == "V":
                cmds.append(Cmd("node.append", n=h[par], c=h[p]))
            else:
                cmds.append(Cmd("node.set", n=h[par], path=nm, c=h[p]))
        tree = [[enc(x) for x in p.split("/")] for p in TREE]
        f, n = "f", "R"
        if save:
            f, n = "q", "Q"
            cmds.append(Cmd("imf.close", ev=dict(op="close", f="f"), f="f"))
            cmds.append(Cmd("imf.open", ev=dict(op="reopen", f="q", **{"from": "f"}), f="q", path=wd + "/f.e57", mode="r"))
            cmds.append(Cmd("imf.root", f="q", n="Q"))
        for p in paths:
            cmds.append(Cmd("nm.path", ev=dict(op="path", f=f, s=enc(p), tree=tree), n=n, path=p))
        return cmds
    return prog


PREFIXES = ["e", "nor", "E", "e_", "x-y", "a.b", "_", "e1", "é", "中文", "ee", "no"]
URIS = ["urn:e", "http://www.libe57.org/E57_EXT_surface_normals.txt", "urn:E", "urn:e ", "a&b", "a&amp;b", 'q"u', "q'u", "<u>", "é", "urn:ee", "u", "urn:e/"]


def ext_program(rng, many=0):
    def prog(wd, seed=rng.random()):
        import random
        r = random.Random(seed)
        cmds = opened(wd, [], "f") + opened(wd, [], "g")
        ps, us = r.sample(PREFIXES, r.randint(2, 6)), r.sample(URIS, r.randint(2, 6))
        ps += ["p%d" % k for k in range(many)]
        us += ["urn:%d" % k for k in range(2 * many)]
        if r.random() < 0.2:
            ps.append("")
            us.append(DEFAULT_URI)
        live = ["f", "g"]
        dead = []

        def ask(f):
            x = r.random()
            if x < 0.3:
                cmds.append(Cmd("ext.all", ev=dict(op="list", f=f), f=f))
            elif x < 0.55:
                p = r.choice([q for q in ps + PREFIXES[:3] if q])
                cmds.append(Cmd("ext.byPrefix", ev=dict(op="byPrefix", f=f, p=enc(p)), f=f, prefix=p))
            elif x < 0.8:
                u = r.choice([v for v in us + URIS[:3] if v != DEFAULT_URI])
                cmds.append(Cmd("ext.byUri", ev=dict(op="byUri", f=f, u=enc(u)), f=f, uri=u))
            elif f not in dead:
                cmds.append(judge((r.choice([q for q in ps if q] + PREFIXES[:2]) + ":" + r.choice(["a", "é", "_1", "1", ""])).encode(), f))
            else:
                cmds.append(add(r.choice([q for q in ps if q]), r.choice(us), f))
        for _ in range(r.randint(3, 25) + 4 * many):
            f = r.choice(live)
            if r.random() < 0.5:
                p = r.choice(ps)
                cmds.append(add(p, DEFAULT_URI if p == "" else r.choice([u for u in us if u != DEFAULT_URI]), f))
            else:
                ask(f)
        for f in live:
            cmds.append(Cmd("ext.all", ev=dict(op="list", f=f), f=f))
        w = r.choice(live)
        cmds.append(Cmd("imf.close", ev=dict(op="close", f=w), f=w))
        dead.append(w)
        for _ in range(2):
            ask(w)
        cmds.append(Cmd(r.choice(["imf.open", "imf.openbuf"]), ev=dict(op="reopen", f="q", **{"from": w}), f="q", path=wd + "/%s.e57" % w, mode="r"))
        cmds.append(Cmd("ext.all", ev=dict(op="list", f="q"), f="q"))
        for _ in range(6):
            ask(r.choice(["q", "q", "q", [f for f in live if f != w][0]]))
        cmds.append(add("fresh", "urn:fresh", "q"))
        cmds.append(Cmd("ext.all", ev=dict(op="list", f="q"), f="q"))
        return cmds
    return prog


def chunked(seq, n):
    seq = list(seq)
    return [seq[i:i + n] for i in range(0, len(seq), n)]


def check_p11(ck):
    exe = build("asan")
    ck.model("MC_Names", "MC_Names_deep.cfg" if ck.thorough else None)
    r = ck.rng
    alpha = [b"a", b"Z", b"_", b"0", b"9", b"-", b".", b":", b"/", b" ", b"\xc3\xa9", b"e"]
    full = 4 if not ck.thorough else 5
    names = [b"".join(t) for n in range(full + 1) for t in itertools.product(alpha, repeat=n)]
    # longer strings that are mostly well formed
    small = [b"a", b"1", b":", b"/", b"e:", b"e:b", b"f:c", b"-"]
    for _ in range(4000 if not ck.thorough else 60000):
        names.append(b"".join(r.choice(small) for _ in range(r.randint(4, 9))))
    # every byte in every position
    for c in range(256):
        b = bytes([c])
        names += [b, b + b"a", b"a" + b, b"a" + b + b"a", b"e:" + b, b"e:" + b + b"a", b"e:a" + b, b + b":a", b"a" + b + b":a", b"1" + b, b + b"1", b"/" + b, b"a/" + b]
    names += [b"a" * n for n in (100, 255, 256, 257)] + [b"1" * n for n in (10, 19, 20, 21, 40)] + [b"e:" + b"x" * 300]
    progs = [names_program(c, exts) for exts in ([("e", "urn:e")], []) for c in chunked(names if exts else names[::7], 400)]
    progs += [names_program(c, [("e", "urn:e"), ("a", "urn:a"), ("f", "urn:f")]) for c in chunked(names[::5], 400)]
    ck.conform(exe, "Trace_Names", progs, "names", post=name_events)
    palpha = ["a", "b", "v", "0", "1", "/", "e:", "e:a", "a/b", "v/1", "/a", "e:b", "f:a", "00", "01", "2"]
    paths = ["".join(t) for n in range(5 if ck.thorough else 4) for t in itertools.product(palpha, repeat=n)]
    paths += TREE + ["/" + p for p in TREE] + ["/" + p + "/" for p in TREE] + ["/"]
    ck.conform(exe, "Trace_Names", [lookup_program(c, k % 2) for k, c in enumerate(chunked(paths, 150))], "lookups", post=name_events)
    ck.conform(exe, "Trace_Names", [ext_program(r) for _ in range(40000 if ck.thorough else 2500)], "extensions", post=name_events)
    ck.conform(exe, "Trace_Names", [ext_program(r, k) for k in (9, 20, 40, 70, 140) * (20 if ck.thorough else 2)], "many extensions", post=name_events)
    return ck.finish("model_checking", "all strings up to length %d over the character classes, every byte in every position, all compositions of path pieces looked up in a fixed tree, random histories of registrations" % full)


CHECKS = {"P11": check_p11}

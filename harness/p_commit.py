"""P14 and P15: dying while a file is written, and failing system calls."""
import random

from core import Cmd, build, run_programs
import e57file as e5
import p_layout as pl


def old_file(r):
    """a valid file that is longer than what will be written over it"""
    b = e5.Builder()
    b.blob("old", bytes(r.randrange(256) for _ in range(r.choice([100, 3000, 60000]))))
    return b.finish(lambda pos: e5.doc('<old type="Blob" fileOffset="%d" length="100"/><note type="String">old</note>' % pos["old"]))


SMALL = dict(pl.SMALL, maxbytes=4000)
TINY = dict(pl.SMALL, nvec=lambda r: r.choice([0, 1, 1, 2]), nleaves=lambda r: r.choice([1, 2, 3]), maxbytes=700,
            nrec=lambda r: r.choice([0, 1, 5, 40, 120]))


# ------------------------------------------------------------------------------------------- P14

def lives(rng, prof, end, policy=100):
    """one life of a file, and every state of the disk on the way"""
    base = pl.written(rng, prof)
    seed = rng.randrange(1 << 60)

    def make(wd):
        r = random.Random(seed)
        cmds = base(wd)
        path = cmds[0].args["path"]
        jr = path + ".journal"
        close = [i for i, c in enumerate(cmds) if c.op == "imf.close"][0]
        old = {}
        pre = [Cmd("sys.journal", path=jr)]
        if r.random() < 0.4:
            data = old_file(r)
            for p in (path, path + ".old"):
                with open(p, "wb") as fp:
                    fp.write(data)
            old = {"old": path + ".old"}
        scan = dict(journal=jr, path=path, policy=policy, seed=seed & 0xffff, every=r.choice([1, 2, 4]), torn=r.choice([97, 211, 512]), **old)
        if end == "close":
            out = pre + cmds[:close] + [Cmd("sys.mark", id=1), cmds[close], Cmd("sys.mark", id=2), Cmd("drop.all"), Cmd("sys.journal.end")]
        else:
            k = r.randint(1, close)
            out = pre + cmds[:k]
            if end == "cancel":
                out.append(Cmd("imf.cancel", f="w"))
            out += [Cmd("drop.all"), Cmd("sys.mark", id=3), Cmd("sys.journal.end")]
        out.append(Cmd("crash.scan", {"op": "crash"}, **scan))
        out.append(Cmd("x.all", {"op": "@final", "phase": 2 if end == "close" else 3}, path=path, caps=r.choice(["64", "1000", "3,7"]), xml=1))
        for p in (path, jr, path + ".old"):
            out.append(Cmd("file.rm", path=p))
        return out
    return make


def post_life(prog):
    evs, vals, blobs, dump = [], {}, {}, None
    for c in prog:
        e = c.ev
        if e is None or c.res["r"] != "ok":
            evs.append({"op": "setup", "cmd": c.op, "r": c.res["r"]})
        elif e["op"] == "@vals":
            vals.setdefault(e["v"], {})[e["leaf"]] = c.res["v"]
        elif e["op"] == "@blob":
            b = blobs.setdefault(e["v"], bytearray(e["len"]))
            data = bytes.fromhex(c.res["v"])
            b[e["start"]:e["end"]] = data[e["start"]:e["end"]]
        elif e["op"] == "@dump":
            dump = c.res["tree"]
        elif e["op"] == "crash":
            evs.append({"op": "crash", "r": "ok", "journaled": c.res["journaled"], "runs": c.res["runs"]})
        elif e["op"] == "@final":
            res = c.res
            ev = {"op": "final", "phase": e["phase"], "open": res["open"] if res["open"] != "ok" else res["rest"], "tree": True, "got": [], "want": []}
            if e["phase"] == 2 and ev["open"] == "ok":
                # elements in the order of the file
                ev["tree"] = [(d["p"], d["type"]) for d in dump] == [(d["p"], d["type"]) for d in res["dump"]]
                for it in res["items"]:
                    p = it["p"].replace("%3a", ":")
                    if it["k"] == "blob":
                        ev["got"].append([p, it["r"], it.get("v", "")])
                        continue
                    if it["r"] != "ok" and p not in vals:
                        continue    # a vector that was never written
                    for q, col in zip(it.get("cols", []), it.get("v", [])):
                        ev["got"].append([p + ":" + q, it["r"], ",".join(col)])
                for p, leaves in vals.items():
                    for q, col in leaves.items():
                        ev["want"].append([p + ":" + pl.pct_out(q), "ok", ",".join(col)])
                for p, b in blobs.items():
                    ev["want"].append([p, "ok", bytes(b).hex()])
            evs.append(ev)
    return evs


def check_p14(ck):
    exe = build("asan")
    ck.model("MC_Commit", "MC_Commit_deep.cfg" if ck.thorough else None)
    r = ck.rng
    mul = 8 if ck.thorough else 1
    progs = [lives(r, SMALL, "close", r.choice([100, 100, 0])) for _ in range(100 * mul)]
    progs += [lives(r, TINY, "close", r.choice([100, 0])) for _ in range(100 * mul)]
    progs += [lives(r, pl.STR, "close", 100) for _ in range(10 * mul)]
    progs += [lives(r, SMALL, r.choice(["cancel", "drop"]), r.choice([100, 0])) for _ in range(100 * mul)]
    ck.conform(exe, "Trace_Commit", progs, "crash points", post=post_life)
    return ck.finish("model_checking", "every write of the library to the file, also torn, of random write programs ended by close, "
                     "cancel or dropping all handles, over a missing or a valid longer older file; the file is opened after each of them")


# ------------------------------------------------------------------------------------------- P15

def plain(cmds):
    """the commands of a write program, without what only serves the comparison"""
    out = []
    for c in cmds:
        if c.ev is not None and c.ev["op"] in ("@vals", "@blob", "@dump", "@file"):
            continue
        out.append(Cmd(c.op, None, **c.args))
        if c.op == "imf.close":
            return out
    return out


def faulty_write(base, arm, after, ref, sink=None):
    """arm: None (first pass: count calls) or the arguments of the fault"""
    def make(wd):
        cmds = plain(base(wd))
        path = cmds[0].args["path"]
        out = [Cmd("sys.space", bytes=arm["bytes"])] if arm and "bytes" in arm else [Cmd("sys.fault", **(arm or dict(kind="any", at=0)))]
        if after == "go":
            out += [Cmd("try.end", lenient=1)] + cmds
        else:
            out += [Cmd("try.begin")] + cmds + [Cmd("try.end", lenient=1)]
            if after == "cancel":
                out.append(Cmd("imf.cancel", {"op": "@after"}, f="w"))
            elif after == "close":
                out.append(Cmd("imf.close", {"op": "@after"}, f="w"))
        out.append(Cmd("drop.all"))
        out.append(Cmd("sys.count", {"op": "@count", "arm": arm, "after": after}))
        out.append(Cmd("sys.disarm", {"op": "@disarm"}))
        out.append(Cmd("sys.stat", {"op": "@stat"}, path=path))
        out.append(Cmd("x.all", {"op": "@all", "ref": ref}, path=path, hash=1, policy=0))
        if ref is None:
            out.append(Cmd("file.get", {"op": "@file"}, path=path))
        out.append(Cmd("file.rm", path=path))
        return out
    return make


def fingerprint(res):
    return [res["open"], res["rest"], res["tree"], [[i["p"], i["r"], i["n"], i["h"]] for i in res["items"]]]


def post_fault(prog):
    ev = {"op": "fault", "results": [], "reported": False, "fired": 0, "after": "", "fds": 0, "out": "", "arm": {}}
    evs = []
    exists = False
    # going on after an error: handles that were never made
    absent = ("SKIPPED", "MISSING", "std:8NoHandle") + (() if any(c.op == "try.begin" for c in prog) else ("std:St12out_of_range",))
    for c in prog:
        r = c.res["r"]
        e = c.ev
        if e is None or e["op"] == "@after":
            if r in absent:
                continue
            if r not in ev["results"]:
                ev["results"].append(r)
            if e is None and r != "ok":
                ev["reported"] = True
        elif r != "ok":
            evs.append({"op": "setup", "cmd": c.op, "r": r})
        elif e["op"] == "@count":
            ev.update(fired=c.res["fired"], fds=c.res["fds"], after=e["after"], arm=e["arm"] or {})
        elif e["op"] == "@stat":
            exists = c.res["exists"]
        elif e["op"] == "@all":
            if not exists:
                ev["out"] = "absent"
            elif c.res["open"] != "ok":
                ev["out"] = "refused"
            else:
                ev["out"] = "complete" if e["ref"] is None or fingerprint(c.res) == e["ref"] else "wrong"
    return evs + [ev]


def faulty_read(data, arm, ref, opts):
    def make(wd):
        path = "%s/r%x.e57" % (wd, random.getrandbits(60))
        with open(path, "wb") as fp:
            fp.write(data)
        return [Cmd("sys.fault", **(arm or dict(kind="any", at=0))),
                Cmd("x.all", {"op": "@all", "ref": ref, "arm": arm}, path=path, hash=1, again=1, **opts),
                Cmd("drop.all"), Cmd("sys.count", {"op": "@count"}), Cmd("sys.disarm", {"op": "@disarm"}), Cmd("file.rm", path=path)]
    return make


def post_read(prog):
    ev = {"op": "readfault", "r": "ok", "items": [], "fired": 0, "fds": 0, "arm": {}}
    for c in prog:
        if c.res["r"] != "ok":
            ev["r"] = c.res["r"]
            ev["cmd"] = c.op
            break
        if c.ev is None:
            continue
        if c.ev["op"] == "@count":
            ev.update(fired=c.res["fired"], fds=c.res["fds"])
        elif c.ev["op"] == "@all":
            res, ref = c.res, c.ev["ref"]
            ev["arm"] = c.ev["arm"] or {}
            ev["items"].append({"r": res["open"], "same": True})
            if res["open"] == "ok":
                ev["items"].append({"r": res["rest"], "same": res["rest"] != "ok" or res["tree"] == ref[2]})
                want = {w[0]: w for w in ref[3]}
                for i in res["items"] + res["items2"]:
                    w = want.get(i["p"])
                    same = w is not None and (i["r"] != "ok" or [i["n"], i["h"]] == w[2:])
                    # an unwritten vector cannot be read at all
                    ev["items"].append({"r": "ok" if w is not None and i["r"] == w[1] else i["r"], "same": same})
    return [ev]


MANY = 1 << 30


def arms(r, total, size, k):
    """k faults for a program that makes so many calls and a file of that size"""
    out = []
    idx = list(range(1, total + 1))
    if len(idx) > k:
        # the calls at the beginning and at the end, and some of those in between
        idx = idx[:8] + idx[-30:] + r.sample(idx[8:-30], max(0, k - 38)) if len(idx) > 40 else r.sample(idx, k)
    for at in idx:
        mode = r.choice(["fail", "fail", "short", "zero"])
        out.append(dict(kind="any", at=at, times=r.choice([1, 1, 1, 2, MANY]), mode=mode, errno=r.choice([5, 28, 4, 9, 11]), lossy=1))
    for _ in range(k // 10 if size else 0):
        out.append(dict(bytes=r.randrange(0, size + 2048)))
    return out


def check_p15(ck):
    exe = build("asan")
    ck.model("MC_Commit", "MC_Commit_deep.cfg" if ck.thorough else None)
    r = ck.rng
    mul = 6 if ck.thorough else 1
    bases = [pl.written(r, TINY) for _ in range(30 * mul)] + [pl.written(r, SMALL) for _ in range(24 * mul)] + [pl.written(r, pl.STR) for _ in range(3 * mul)]
    first = run_programs(exe, [faulty_write(b, None, "stop", None) for b in bases], ck.scratch)
    progs, files = [], []
    per = 120 if not ck.thorough else 400
    for b, p in zip(bases, first):
        bad = [c for c in p if c.res["r"] != "ok"]
        if bad:
            ck.violate("%s without a fault" % bad[0].res["r"], {"command": bad[0].line()})
            continue
        g = {c.ev["op"]: c.res for c in p if c.ev}
        ref = fingerprint(g["@all"])
        data = bytes.fromhex(g["@file"]["v"])
        files.append((data, ref))
        for arm in arms(r, g["@count"]["total"], len(data), per):
            progs.append(faulty_write(b, arm, r.choice(["stop", "stop", "cancel", "close", "go"]), ref))
    ck.log("%d write programs, %d faults" % (len(bases), len(progs)))
    ck.conform(exe, "Trace_Commit", progs, "faults while writing", post=post_fault)

    optl = [dict(policy=r.choice([100, 0, 50]), caps=r.choice(["64", "1000", "3,7"]), fresh=r.randint(0, 1)) for _ in files]
    first = run_programs(exe, [faulty_read(d, None, f, o) for (d, f), o in zip(files, optl)], ck.scratch)
    progs = []
    for (d, f), o, p in zip(files, optl, first):
        bad = [c for c in p if c.res["r"] != "ok"]
        if bad:
            ck.violate("%s without a fault" % bad[0].res["r"], {"command": bad[0].line()})
            continue
        n = [c.res["total"] for c in p if c.op == "sys.count"][0]
        progs.append(faulty_read(d, None, f, o))
        for arm in arms(r, n, 0, per):
            progs.append(faulty_read(d, arm, f, o))
    ck.conform(exe, "Trace_Commit", progs, "faults while reading", post=post_read)
    return ck.finish("model_checking", "failure, short or empty transfer at the system calls of random write and read programs (the first and "
                     "the last ones, and a sample in between), once or lasting, several error codes, full disks; afterwards the program "
                     "stops, cancels, closes or goes on")


CHECKS = {"P14": check_p14, "P15": check_p15}

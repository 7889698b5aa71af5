"""Build, execution, TLC and evidence plumbing shared by all checks."""
import concurrent.futures
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("E57_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
CACHE = os.path.join(VERIF, ".cache")
CORES = min(8, os.cpu_count() or 8)


class HarnessError(Exception):
    """The machinery itself failed: neither held nor violated."""


# ------------------------------------------------------------------------------------------ build

def _files(*globs):
    import glob
    out = []
    for g in globs:
        out += glob.glob(g, recursive=True)
    return sorted(f for f in out if os.path.isfile(f))


FLAVOURS = {
    # sanitized build, library consistency checks on
    "asan": ["-O1", "-fsanitize=address", "-DE57_VALIDATION_LEVEL=2"],
    # what a release user gets
    "release": ["-O2", "-DNDEBUG", "-DE57_VALIDATION_LEVEL=1"],
    # writer divides bytestreams into unusual packets
    "crazy": ["-O1", "-fsanitize=address", "-DE57_VALIDATION_LEVEL=2", "-DE57_WRITE_CRAZY_PACKET_MODE"],
    # undefined behaviour checks that do not depend on wrap-around arithmetic
    "ubsan": ["-O1", "-fsanitize=address,bounds,null,object-size,vptr,alignment,enum,bool",
              "-fno-sanitize-recover=all", "-DE57_VALIDATION_LEVEL=2"],
}


def build(flavour="asan"):
    """Compile /repo's current sources together with the driver; returns the executable."""
    flags = FLAVOURS[flavour]
    lib = _files(REPO + "/src/*.cpp")
    drv = _files(VERIF + "/driver/*.cpp")
    deps = _files(REPO + "/src/*.h", REPO + "/include/*.h", REPO + "/extern/CRCpp/inc/*.h", VERIF + "/driver/*.h")
    h = hashlib.sha256((flavour + " ".join(flags)).encode())
    for f in lib + drv + deps:
        h.update(f.encode())
        with open(f, "rb") as fp:
            h.update(fp.read())
    out = os.path.join(CACHE, "build-%s-%s" % (flavour, h.hexdigest()[:16]))
    exe = os.path.join(out, "driver")
    if os.path.exists(exe):
        return exe
    os.makedirs(CACHE, exist_ok=True)
    for old in os.listdir(CACHE):
        p = os.path.join(CACHE, old)
        if old.startswith("build-%s-" % flavour) and time.time() - os.path.getmtime(p) > 600:
            shutil.rmtree(p, ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=CACHE)
    try:
        inc = os.path.join(tmp, "inc")
        os.mkdir(inc)
        with open(os.path.join(inc, "E57Export.h"), "w") as fp:
            fp.write("#pragma once\n#define E57_DLL\n#define E57_NO_EXPORT\n")
        common = ["g++", "-std=c++14", "-g1", "-w", '-DREVISION_ID="verif-test"', "-DE57_ENABLE_DIAGNOSTIC_OUTPUT",
                  "-I" + inc, "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + REPO + "/extern/CRCpp/inc"] + flags

        def comp(src):
            obj = os.path.join(tmp, ("lib_" if src in lib else "drv_") + os.path.basename(src)[:-4] + ".o")
            p = subprocess.run(common + ["-c", src, "-o", obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                raise HarnessError("compilation of %s failed:\n%s" % (src, p.stdout[-3000:]))
            return obj

        order = sorted(lib + drv, key=lambda f: -os.path.getsize(f))
        with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
            objs = list(ex.map(comp, order))
        p = subprocess.run(["g++"] + [f for f in flags if f.startswith("-fsan")] + objs +
                           ["-lxerces-c", "-lpthread", "-o", os.path.join(tmp, "driver")],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise HarnessError("link failed:\n" + p.stdout[-3000:])
        for o in objs:
            os.unlink(o)
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    return exe


# -------------------------------------------------------------------------------------- execution

SAFE = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_./:,+@*")


def pct(v):
    if isinstance(v, bool):
        v = int(v)
    if not isinstance(v, (str, bytes)):
        v = str(v)
    if isinstance(v, str):
        v = v.encode("utf-8")
    return "".join(chr(c) if chr(c) in SAFE else "%%%02x" % c for c in v)


def pct_out(v):
    """Same encoding as the driver uses for strings it returns."""
    if isinstance(v, str):
        v = v.encode("utf-8")
    ok = set(b"-_./:")
    return "".join(chr(c) if (chr(c).isalnum() and c < 128) or c in ok else "%%%02x" % c for c in v)


class Cmd:
    """One driver command. ev: the event for the specification (None: not part of the trace)."""
    __slots__ = ("op", "args", "ev", "res")

    def __init__(self, op, ev=None, **args):
        self.op, self.args, self.ev, self.res = op, args, ev, None

    def line(self):
        return " ".join([self.op] + ["%s=%s" % (k, pct(v)) for k, v in self.args.items()])


class Scratch:
    def __init__(self):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > (1 << 30) else None
        self.dir = tempfile.mkdtemp(prefix="e57v-", dir=base)
        self.n = 0

    def sub(self):
        self.n += 1
        d = os.path.join(self.dir, "d%d" % self.n)
        os.mkdir(d)
        return d

    def remove(self):
        shutil.rmtree(self.dir, ignore_errors=True)


STALL = 60     # seconds without a result that count as a hang; a command normally takes milliseconds


def _drive(exe, data, wd, env, errf, stall):
    """Feed commands to a driver; returns the result lines, whether it hung, and the exit code."""
    proc = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=errf, cwd=wd, env=env)
    got, last = [], [time.time()]

    def feed():
        try:
            proc.stdin.write(data)
            proc.stdin.close()
        except OSError:
            pass

    def fetch():
        while True:
            b = proc.stdout.read1(1 << 20)
            if not b:
                return
            got.append(b)
            last[0] = time.time()
    tf, tg = threading.Thread(target=feed, daemon=True), threading.Thread(target=fetch, daemon=True)
    tf.start()
    tg.start()
    hang = False
    while tg.is_alive():
        tg.join(0.05 if not got else 0.5)
        if time.time() - last[0] > stall:
            hang = True
            proc.kill()
            break
    tg.join()
    proc.wait()
    tf.join(5)
    return b"".join(got).decode("utf-8", "replace").split("\n")[:-1], hang, proc.returncode


def _run_chunk(exe, programs, wd, timeout):
    """Run programs (lists of Cmd) in one driver process; fill in results; survive crashes. After a hang the
    remaining programs are not run."""
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_odr_violation=0",
               E57_SCRATCH=wd)
    i = 0
    deaths = 0
    while i < len(programs):
        lines = []
        for p in programs[i:]:
            lines.append("reset")
            lines += [c.line() for c in p]
        data = ("\n".join(lines) + "\n").encode()
        errf = tempfile.TemporaryFile(dir=wd)
        complete, hang, code = _drive(exe, data, wd, env, errf, timeout)
        pos = 0
        dead = False
        for k in range(i, len(programs)):
            p = programs[k]
            if pos >= len(complete):
                # died in the reset of this program (i.e. while dropping the previous one)
                if k > i:
                    last = programs[k - 1][-1]
                    if last.res is not None:
                        last.res["r"] = "HANG-IN-RESET" if hang else "CRASH-IN-RESET"
                        last.res["stderr"] = _tail(errf)
                    i = k
                else:
                    raise HarnessError("driver does not start: " + _tail(errf))
                dead = True
                break
            pos += 1  # reset
            for c in p:
                if pos < len(complete):
                    c.res = json.loads(complete[pos])
                    pos += 1
                    if c.res["r"].startswith("BAD-COMMAND"):
                        raise HarnessError("%s for: %s" % (c.res["r"], c.line()))
                elif not dead:
                    dead = True
                    c.res = {"r": "HANG" if hang else "CRASH", "stderr": _tail(errf)}
                else:
                    c.res = {"r": "SKIPPED"}
            if dead:
                i = k + 1
                break
        if not dead:
            if code != 0 and programs:
                last = programs[-1][-1]
                last.res["r"] = "HANG-IN-RESET" if hang else "CRASH-IN-RESET"
                last.res["stderr"] = _tail(errf)
            i = len(programs)
        errf.close()
        deaths += 1
        if hang or deaths >= 40:
            for p in programs[i:]:
                for c in p:
                    c.res = {"r": "SKIPPED"}
            return


def _tail(f):
    try:
        f.seek(0, 2)
        n = f.tell()
        f.seek(max(0, n - 6000))
        t = f.read().decode("utf-8", "replace")
        m = re.search(r"(ERROR: AddressSanitizer.*)", t, re.S)
        return (m.group(1) if m else t)[-1500:]
    except OSError:
        return ""


def run_programs(exe, programs, scratch, timeout=STALL, jobs=CORES, chunks=None):
    """Execute programs in parallel driver processes. A program is a function wd -> [Cmd] or a list."""
    progs = [p for p in programs]
    n = max(1, min(jobs, len(progs)))
    parts = [progs[k::n] for k in range(n)]
    dirs = [scratch.sub() for _ in parts]
    built = [[(p(d) if callable(p) else p) for p in part] for part, d in zip(parts, dirs)]
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        list(ex.map(lambda t: _run_chunk(exe, t[0], t[1], timeout), zip(built, dirs)))
    res = [None] * len(progs)
    for k, part in enumerate(built):
        for j, p in enumerate(part):
            res[k + j * n] = p
    for d in dirs:
        shutil.rmtree(d, ignore_errors=True)
    return res


# -------------------------------------------------------------------------------------------- TLC

TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcResult:
    pass


def tlc(module, cfg, env=None, workers=1, timeout=600, extra=(), heap="3g", props=()):
    """Run TLC on spec/<module>.tla with spec/<cfg>. Raises HarnessError if TLC itself fails."""
    meta = tempfile.mkdtemp(prefix="tlc-")
    try:
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + meta] + list(props) + [
               "-cp", TLA_CP, "tlc2.TLC", "-config", cfg, "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
               "-nowarning"] + list(extra) + [module + ".tla"]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise HarnessError("TLC timeout on %s (%s)" % (module, cfg))
        r = TlcResult()
        r.out, r.code, r.wall = p.stdout, p.returncode, time.time() - t0
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", r.out)
        r.generated, r.distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        m = re.search(r'<<"REJECTED", (\d+)>>', r.out)
        r.rejected = int(m.group(1)) if m else None
        r.invariant = re.search(r"Invariant (\w+) is violated|Action property (\w+)|Temporal properties were violated", r.out)
        return r
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def tlc_model(module, cfg=None, workers=CORES, timeout=700, heap="8g", extra=()):
    """Exhaustive check of a small configuration. Must succeed: the model is not the code."""
    r = tlc(module, cfg or module + ".cfg", workers=workers, timeout=timeout, heap=heap, extra=extra)
    if r.code != 0 or "No error has been found" not in r.out:
        raise HarnessError("model check of %s failed (exit %d):\n%s" % (module, r.code, r.out[-3000:]))
    if r.distinct < 2:
        raise HarnessError("model check of %s is vacuous" % module)
    return r


def tlc_trace(module, events, timeout=600, heap="3g"):
    """Returns None if the trace is a behaviour of the specification, else the 0-based index of the
    first event that cannot be explained."""
    f = tempfile.NamedTemporaryFile("w", suffix=".ndjson", delete=False)
    try:
        for e in events:
            f.write(json.dumps(e) + "\n")
        f.close()
        r = tlc(module, module + ".cfg", env={"TRACE": f.name}, timeout=timeout, heap=heap)
        if r.rejected is not None:
            return r.rejected - 1, r
        if r.code != 0 or "No error has been found" not in r.out:
            # an event whose form the specification cannot even evaluate (a missing or mistyped field)
            at = re.findall(r"^(?:/\\ )?l = (\d+)", r.out, re.M)
            if at and ("Attempted to" in r.out or "while evaluating" in r.out or "evaluating the nested" in r.out) and int(at[-1]) <= len(events):
                return int(at[-1]) - 1, r
            raise HarnessError("TLC failed on a trace of %s (exit %d):\n%s" % (module, r.code, r.out[-4000:]))
        return None, r
    finally:
        os.unlink(f.name)


def events_of(prog):
    """Events of an executed program, merged with the observed results."""
    evs = []
    for c in prog:
        if c.ev is None:
            # set-up command: the specification requires it to succeed
            e = {"op": "setup", "cmd": c.op, "r": c.res["r"]}
        else:
            e = dict(c.ev)
            for k, v in c.res.items():
                if k != "stderr":
                    e[k] = v
        evs.append(e)
    return evs


class Violation:
    def __init__(self, prop, what, replay):
        self.prop, self.what, self.replay = prop, what, replay


class Check:
    """State of one check run."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random("%s-%s" % (prop, seed))
        self.t0 = time.time()
        self.scratch = Scratch()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.assumptions = []
        self.violations = []
        self.known = []
        self.stats = {}
        self.thorough = tier == "thorough"

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    def model(self, module, cfg=None, **kw):
        r = tlc_model(module, cfg, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        self.log("model %s: %d states, %d transitions, %.1fs" % (cfg or module, r.distinct, r.generated, r.wall))
        return r

    # -- code -> spec
    def conform(self, exe, trace_module, programs, label="", timeout=STALL, chunks=None, sample=True, post=None,
                tlc_timeout=600, heap="3g"):
        """Run programs (functions wd -> [Cmd]) and let TLC decide whether the traces are behaviours.
        post(prog) may add measurements: returns the list of events of a program."""
        def ev_of(run):
            try:
                return (post or events_of)(run)
            except HarnessError:
                raise
            except Exception as x:
                # the results do not even have the expected form: no behaviour at all
                return [{"op": "setup", "cmd": "results of the program", "r": "unusable: %r" % x}]
        t0 = time.time()
        runs = run_programs(exe, programs, self.scratch, timeout=timeout)
        t1 = time.time()
        n = max(1, min(chunks or CORES, len(runs)))
        traces = []
        for k in range(n):
            evs, owner = [], []
            for i in range(k, len(runs), n):
                if runs[i] and runs[i][0].res["r"] == "SKIPPED":
                    continue    # not run, after a hang
                evs.append({"op": "reset"})
                owner.append(i)
                for e in ev_of(runs[i]):
                    evs.append(e)
                    owner.append(i)
            traces.append((evs, owner))
        with concurrent.futures.ThreadPoolExecutor(n) as ex:
            res = list(ex.map(lambda t: tlc_trace(trace_module, t[0], timeout=tlc_timeout, heap=heap), traces))
        nev = sum(len(t[0]) for t in traces)
        for evs, _ in traces:
            for e in evs:
                k = "%s:%s" % (e.get("op"), e.get("res", e.get("r", "")))
                self.stats[k] = self.stats.get(k, 0) + 1
        self.log("%s: %d programs, %d events; run %.1fs, tlc %.1fs" % (label or trace_module, len(runs), nev, t1 - t0, time.time() - t1))
        bad = []
        for (evs, owner), (pos, r) in zip(traces, res):
            self.states += r.distinct
            self.transitions += r.generated
            self.events += len(evs) if pos is None else pos
            if pos is not None:
                bad.append((owner[min(pos, len(owner) - 1)], evs[min(pos, len(evs) - 1)]))
        self.traces += len(runs) - len(bad)
        if sample and runs:
            self.samples.append({"label": label or trace_module, "events": ev_of(runs[0])[:6]})
        for i, ev in bad[:3]:
            self._confirm(exe, trace_module, programs, i, runs[i], ev, label, timeout, ev_of)
        return runs

    def _confirm(self, exe, trace_module, programs, i, orig, ev, label, timeout, ev_of):
        """Prefer a rejection that happens again alone, or with the programs that ran before it."""
        n = max(1, min(CORES, len(programs)))
        before = programs[i % n:i + 1:n]
        for group in ([programs[i]], [programs[i]], before):
            run = run_programs(exe, group, self.scratch, timeout=timeout, jobs=1)[-1]
            evs = [{"op": "reset"}] + ev_of(run)
            pos, r = tlc_trace(trace_module, evs)
            if pos is not None:
                bad = evs[min(pos, len(evs) - 1)]
                self.violate("%s: event %d is not a behaviour of the specification: %s" %
                             (label or trace_module, pos, json.dumps(bad)[:600]),
                             {"module": trace_module, "rejected_at": pos, "event": bad,
                              "programs_before": len(group) - 1,
                              "commands": [c.line() for c in run], "trace": evs,
                              "stderr": [c.res.get("stderr") for c in run if c.res and c.res.get("stderr")]})
                return
        if any(c.res["r"].startswith("HANG") for c in orig):
            raise HarnessError("a hang was not repeatable: %s %s" % (label, json.dumps(ev)[:500]))
        # it happened all the same; code that depends on uninitialized memory behaves like this
        self.violate("%s: an event is not a behaviour of the specification (did not repeat): %s" % (label or trace_module, json.dumps(ev)[:600]),
                     {"module": trace_module, "event": ev, "commands": [c.line() for c in orig],
                      "stderr": [c.res.get("stderr") for c in orig if c.res and c.res.get("stderr")]})

    def violate(self, what, detail):
        d = os.path.join(VERIF, ".out")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "replay-%s-%d.json" % (self.prop, len(self.violations) + 1))
        with open(path, "w") as fp:
            json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier, "what": what, "detail": detail}, fp, indent=1)
        self.violations.append({"what": what[:1000], "replay": path})
        self.log("VIOLATING:", what[:1500])

    def known_finding(self, what):
        """A listed defect was observed again; one that is not listed is a violation."""
        with open(os.path.join(VERIF, "known_findings.txt")) as fp:
            listed = any(ln.strip() == "finding: property=%s %s" % (self.prop, what) for ln in fp)
        if listed:
            self.known.append(what)
        else:
            self.violate(what, {"note": "not listed in known_findings.txt"})

    def finish(self, level, rule, assumptions=()):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "events_validated": self.events,
                           "rule": rule, "samples": self.samples[:8] or [{"note": "none"}], "stats": self.stats},
              "wall_s": round(time.time() - self.t0, 2),
              "assumptions": list(assumptions) + self.assumptions,
              "violations": len(self.violations), "violation_details": self.violations}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as fp:
            json.dump(ev, fp, indent=1)
        self.scratch.remove()
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for v in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, v["replay"]))
        self.log("done: %d programs/traces, %d events, %d violations" % (self.traces, self.events, len(self.violations)))
        sys.stdout.flush()
        return 1 if self.violations else 0

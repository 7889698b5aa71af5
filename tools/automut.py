#!/usr/bin/env python3
"""automut.py SEED COUNT WORKERS LOG [file-regex]: self-test with random mutants.

Small random changes of /repo's sources (in scratch copies under /tmp/e57am*) which compile and pass the
repository's stable tests are given to the checks that concern the file. Survivors are to be judged by hand:
equivalent, or a gap in a check."""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import threading
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [
    (r"(Encoder|Decoder|Packet|CompressedVector(Reader|Writer).*)\.cpp", "P01 P02 P04 P03 P17 P13 P16 P06 P15"),
    (r"CheckedFile\.cpp", "P05 P07 P18 P15 P14 P10 P01 P12 P03"),
    (r"SourceDestBuffer.*\.cpp", "P16 P02 P13 P17 P01"),
    (r"ImageFile.*\.cpp", "P11 P12 P06 P13 P10 P03 P14 P08 P15 P07"),
    (r"(SectionHeaders)\.cpp", "P06 P04 P03"),
    (r"E57XmlParser\.cpp", "P10 P06 P22 P17"),
    (r"Blob.*\.cpp", "P18 P06 P10 P09 P13 P12"),
    (r"(ReaderImpl|WriterImpl|E57Simple.*)\.cpp", "P19 P20 P21 P22"),
    (r"StringFunctions.*", "P10 P19"),
    (r"(Node|StructureNode|VectorNode|FloatNode|IntegerNode|ScaledIntegerNode|StringNode|CompressedVectorNode).*\.cpp",
     "P08 P09 P10 P17 P11 P13 P12 P18 P06"),
]


def props(f):
    for rx, p in PROPS:
        if re.fullmatch(rx, os.path.basename(f)):
            return p.split()
    return []


def candidates():
    out = []
    src = os.path.join("/repo", "src")
    for n in sorted(os.listdir(src)):
        if not n.endswith(".cpp") or not props(n):
            continue
        text = open(os.path.join(src, n)).read().split("\n")
        skip, comment, inv = [], False, False
        for i, l in enumerate(text):
            s = l.strip()
            if "checkInvariant( bool" in l:
                inv = True
            elif l.startswith(("}", "   }")):
                inv = False
            if "/*" in l:
                comment = True
            if comment or inv:
                comment = comment and "*/" not in l
                continue
            if s.startswith("#if"):
                skip.append("VERBOSE" in s or "DIAGNOSTIC" in s or "VALID" in s or "#if 0" in s or "WIN" in s or "MSC" in s or "MAC" in s or "APPLE" in s)
                continue
            if s.startswith("#el") and skip:
                skip[-1] = not skip[-1] if "else" in s and not ("VALID" in s) else True
                continue
            if s.startswith("#endif") and skip:
                skip.pop()
                continue
            if any(skip) or not s or s.startswith(("//", "*", "/*", "#", "throw", "{", "}", '"', "toString", "+")) or "E57_EXCEPTION" in s or "toString(" in s:
                continue
            code = l.split("//")[0]
            for op, rep in mutations(code):
                out.append((n, i, l, rep, op))
    return out


def mutations(l):
    res = []

    def sub(rx, to, op):
        for m in re.finditer(rx, l):
            res.append((op, l[:m.start()] + m.expand(to) + l[m.end():]))
    if "template" in l or "#include" in l or "operator" in l:
        return res
    sub(r" < (?!.*>\()", " <= ", "rel")
    sub(r" <= ", " < ", "rel")
    sub(r" > ", " >= ", "rel")
    sub(r" >= ", " > ", "rel")
    sub(r" == ", " != ", "rel")
    sub(r" != ", " == ", "rel")
    sub(r" && ", " || ", "bool")
    sub(r" \|\| ", " && ", "bool")
    sub(r" \+ 1\b", "", "one")
    sub(r" - 1\b", "", "one")
    sub(r" \+ (?=\w)", " - ", "arith")
    sub(r" - (?=\w)", " + ", "arith")
    sub(r" \* (?=\w)", " / ", "arith")
    sub(r"(?<=[\w)]) % (?=\w)", " / ", "arith")
    sub(r" \+= ", " = ", "assign")
    sub(r"\b([1-9]\d?)\b(?!\.)", lambda m: str(int(m.group(1)) + 1), "const") if False else None
    for m in re.finditer(r"(?<![\w.\"])([0-9]{1,4})(?![\w.\"])", l):
        res.append(("const", l[:m.start()] + str(int(m.group(1)) + 1) + l[m.end():]))
    sub(r"\btrue\b", "false", "flag")
    sub(r"\bfalse\b", "true", "flag")
    sub(r"Minimum", "Maximum", "swap")
    sub(r"Maximum", "Minimum", "swap")
    sub(r"\bfloor\b", "ceil", "round")
    s = l.strip()
    m = re.fullmatch(r"(\s*)(if|while) \( (.*) \)\s*", l)
    if m:
        if m.group(2) == "if":
            res.append(("cond", "%sif ( ( %s ) && false )" % (m.group(1), m.group(3))))
            res.append(("cond", "%sif ( ( %s ) || true )" % (m.group(1), m.group(3))))
    if s.endswith(";") and re.match(r"^[A-Za-z_][\w.>\[\]\-:]*(\(| [+\-*]?=|\+\+|--)", s) and not s.startswith(("return", "break", "continue", "using")):
        res.append(("drop", re.match(r"\s*", l).group(0) + ";"))
    return res


def main():
    seed, count, workers, log = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    rx = sys.argv[5] if len(sys.argv) > 5 else "."
    r = random.Random(seed)
    cand = [c for c in candidates() if re.search(rx, c[0])]
    # files weigh by the square root of their size
    by = {}
    for c in cand:
        by.setdefault(c[0], []).append(c)
    names = sorted(by)
    w = [len(by[n]) ** 0.6 for n in names]
    picks = []
    while len(picks) < count:
        n = r.choices(names, w)[0]
        picks.append(r.choice(by[n]))
    lock = threading.Lock()
    todo = list(enumerate(picks))
    out = open(log, "a")

    def say(s):
        with lock:
            out.write(s + "\n")
            out.flush()

    def work(k):
        W = "/tmp/e57am%d" % k
        shutil.rmtree(W, ignore_errors=True)
        os.makedirs(W)
        shutil.copytree(V, W + "/verif", ignore=shutil.ignore_patterns(".git", ".cache", "evidence", ".out", "seeded"))
        subprocess.check_call(["rsync", "-a", "--exclude", "_build", "/repo/", W + "/repo/"])
        orig = W + "/orig/"
        shutil.copytree(W + "/repo/src", orig)
        for t in ("build", "test"):
            s = open("/opt/vp/%s.sh" % t).read().replace("/opt/vp/build.sh", W + "/build.sh").replace("/repo", W + "/repo")
            open(W + "/%s.sh" % t, "w").write(s)
        want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        while True:
            with lock:
                if not todo:
                    break
                i, (n, line, old, new, op) = todo.pop(0)
            tag = "%d/%d %s:%d %s\n      - %s\n      + %s\n     " % (seed, i, n, line + 1, op, old.strip(), new.strip())
            p = W + "/repo/src/" + n
            text = open(orig + n).read().split("\n")
            if text[line] != old:
                say(tag + " stale")
                continue
            text[line] = new
            open(p, "w").write("\n".join(text))
            try:
                b = subprocess.run(["bash", W + "/build.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
                if b.returncode:
                    say(tag + " nocompile")
                    continue
                try:
                    subprocess.run(["bash", W + "/test.sh", W + "/out.json"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
                    ok = want <= set(json.load(open(W + "/out.json"))["passed"])
                except Exception:
                    ok = False
                if not ok:
                    say(tag + " tests")
                    continue
                res, t0, tried = None, time.time(), []
                for P in props(n):
                    env = dict(os.environ, E57_REPO=W + "/repo")
                    q = subprocess.run([sys.executable, W + "/verif/check.py", P], cwd=W + "/verif", env=env, stdout=subprocess.PIPE,
                                       stderr=subprocess.STDOUT, text=True)
                    if q.returncode == 1 and "VIOLATION property=" + P in q.stdout:
                        res = "caught " + P
                        break
                    tried.append(P)
                    if q.returncode not in (0, 1):
                        res = "BROKEN %s %s" % (P, q.stdout[-300:])
                        break
                say(tag + " %s (after %s) %ds" % (res or "SURVIVED", ",".join(tried), time.time() - t0))
            finally:
                open(p, "w").write("\n".join(open(orig + n).read().split("\n")))
        shutil.rmtree(W, ignore_errors=True)

    ts = [threading.Thread(target=work, args=(k,)) for k in range(workers)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    say("finished")


if __name__ == "__main__":
    main()

"""P01 and P02: records."""
from core import Cmd, build
import gen_transfer as g


def nrec_p01(r):
    return r.choice([0, 1, 2, 3, 7, 8, 49, 50, 51, 100, 101, r.randint(1, 300), r.randint(1, 300), r.randint(300, 4000)])


P01_SMALL = dict(nvec=lambda r: r.choice([1, 1, 2, 3]), nleaves=lambda r: r.choice([1, 2, 3, 5, 8, 12]), nrec=nrec_p01,
                 readers=lambda r: 1, wcap=lambda r, n: r.choice([1, 7, 50, 64, 200, n + 1]) if n < 400 else r.choice([100, 1000, n, n + 9]),
                 rcap=lambda r, n: n + r.choice([0, 1, 5]) if r.random() < 0.5 else max(n // 3, 1), subset=0.0)
P01_BIG = dict(P01_SMALL, nvec=lambda r: r.choice([1, 2]), nleaves=lambda r: r.randint(1, 6), maxbytes=400000,
               nrec=lambda r: r.choice([3000, 9000, 20000, 70000]),
               wcap=lambda r, n: r.choice([n + 1, 1000, 4096, 10000]), rcap=lambda r, n: r.choice([n + 1, 5000, 9999]))
P01_STR = dict(P01_SMALL, nleaves=lambda r: r.choice([1, 2, 3]), kinds=["str", "str", "int"], nrec=lambda r: r.choice([1, 5, 60, 200, 500]),
               maxbytes=500000)


def wide(prof, n, bits=None):
    """many leaves, nested more deeply"""
    return dict(prof, nvec=lambda r: 1, nleaves=lambda r: n, depth=lambda r: r.choice([0, 2, 9]), bits=bits,
                nrec=lambda r: r.choice([1, 3, 60, 300]), maxbytes=100000, kinds=["int"] * 6 + ["sint", "f32", "f64"])


def long(prof, n, most):
    """many records of few bits"""
    return dict(prof, nvec=lambda r: 1, nleaves=lambda r: r.choice([1, 2]), kinds=["int"], bits=lambda r: r.randint(0, most), readback=0,
                nrec=lambda r: n, maxbytes=1 << 30, wcap=lambda r, n: r.choice([n, 70000, 100001]),
                rcap=lambda r, n: r.choice([65535, 65536, 65537, 100000, 131073, n]), readers=lambda r: 1, partial=0)


def many(n, rec):
    """Records whose bytestream lengths fill most of a packet, or more than a packet."""
    return lambda wd: [Cmd("many", {"op": "many", "n": n, "rec": rec}, path=wd + "/many.e57", n=n, rec=rec)]


def check_p01(ck):
    exe = build("asan")
    ck.model("MC_Transfer")
    r = ck.rng
    mul = 20 if ck.thorough else 3
    progs = [g.transfer_program(r, P01_SMALL) for _ in range(400 * mul)]
    progs += [g.transfer_program(r, P01_BIG) for _ in range(24 * mul)]
    progs += [g.transfer_program(r, P01_STR) for _ in range(60 * mul)]
    # long strings: beyond a packet, beyond 16 bits, beyond 22 bits of length
    for n in (16383, 16384, 32767, 32768, 65535, 65536, 70000, 131072, 300000, 1 << 20, (1 << 22) + 3, (1 << 23) + 1):
        for _ in range(2):
            progs.append(g.transfer_program(r, dict(P01_STR, nvec=lambda q: 1, kinds=["str"], strlen=n, maxbytes=1 << 30,
                                                    nleaves=(lambda q, n=n: 2 if n < 200000 else 1),
                                                    nrec=(lambda q, n=n: max(3, min(60, (1 << 21) // n)))))) 
    for n in (17, 40, 130, 260, 600):
        progs += [g.transfer_program(r, wide(P01_SMALL, n)) for _ in range(mul)]
        progs.append(g.transfer_program(r, wide(P01_SMALL, n, lambda q: q.randint(0, 9))))
    for n, most in ((140000, 3), (270000, 2), (530000, 1), (1100000, 0), (1100000, 1)):
        progs.append(g.transfer_program(r, long(P01_SMALL, n, most)))
    # every width of integer, as a single field and as one of several
    for rep in range(mul):
        for b in range(65):
            for scaled in ("int", "sint"):
                for nrec in (1, 9, 70, 1000):
                    progs.append(g.transfer_program(r, dict(P01_SMALL, nvec=lambda q: 1, nleaves=lambda q: 1, kinds=[scaled], bits=(lambda q, b=b: b),
                                                            nrec=(lambda q, nrec=nrec: nrec), readback=0)))
    ck.conform(exe, "Trace_Transfer", progs, "P01 programs")
    ck.conform(build("release"), "Trace_Transfer", [many(n, rec) for n, rec in ((21900, 60), (24600, 3), (32765, 3), (40000, 3))], "very many fields",
               timeout=180)
    return ck.finish("model_checking", "random and systematic write/read programs; every program writes at least one vector and reads it back after reopen")


P02_SMALL = dict(nvec=lambda r: r.choice([1, 1, 2]), nleaves=lambda r: r.choice([1, 2, 3, 5, 8]),
                 nrec=lambda r: r.choice([0, 1, 2, 5, 17, 50, 64, 120, r.randint(1, 150)]),
                 readers=lambda r: r.randint(1, 4), wcap=lambda r, n: n + 1,
                 rcap=lambda r, n: r.choice([1, 2, 3, 7, 10, 16, 33, max(1, n - 1), n, n + 1, 2 * n + 3]) if n < 40 else r.choice([5, 7, 16, 49, 50, 51, n // 2, n - 1, n, n + 1]),
                 subset=0.6, rswap=0.3, partial=0.3, readback=0.4)
P02_BIG = dict(P02_SMALL, nvec=lambda r: 1, nrec=lambda r: r.choice([3000, 12000, 40000]), maxbytes=400000,
               wcap=lambda r, n: n + 1, rcap=lambda r, n: r.choice([max(1, n // 13), max(1, n // 7), max(1, n // 2), n, n + 1, 1024, 4096]), readers=lambda r: r.randint(1, 3))
P02_STR = dict(P02_SMALL, nvec=lambda r: 1, nleaves=lambda r: r.choice([1, 2, 3]), kinds=["str", "str", "int"],
               nrec=lambda r: r.choice([1, 5, 30, 90]), maxbytes=400000)


def check_p02(ck):
    exe = build("asan")
    ck.model("MC_Transfer")
    r = ck.rng
    mul = 20 if ck.thorough else 4
    progs = [g.transfer_program(r, P02_SMALL) for _ in range(330 * mul)]
    progs += [g.transfer_program(r, P02_BIG) for _ in range(24 * mul)]
    progs += [g.transfer_program(r, P02_STR) for _ in range(60 * mul)]
    for n in (17, 40, 130, 260):
        progs += [g.transfer_program(r, wide(P02_SMALL, n)) for _ in range(mul)]
    for n, most in ((70000, 8), (140000, 3), (270000, 1)):
        progs += [g.transfer_program(r, long(P02_SMALL, n, most)) for _ in range(2)]
    ck.conform(exe, "Trace_Transfer", progs, "P02 programs")
    return ck.finish("model_checking", "random read schedules over random vectors; at least one read call per program")


CHECKS = {"P01": check_p01, "P02": check_p02}

"""P08, P09, P10: element trees."""
import itertools

from core import build
import gen_tree as g


def tree_check(ck, nrand, nops, nsmall):
    exe = build("asan")
    ck.model("MC_Tree", "MC_Tree_deep.cfg" if ck.thorough else None)
    r = ck.rng
    progs = [g.tree_program(r, r.choice(nops), r.choice([1, 2, 2])) for _ in range(nrand)]
    ck.conform(exe, "Trace_Tree", progs, "random programs", post=g.tree_events)
    wide = [(11, 3), (12, 40), (15, 8), (30, 5), (101, 12), (130, 3)] * (4 if ck.thorough else 1)
    ck.conform(exe, "Trace_Tree", [g.wide_program(r, k, d) for k, d in wide], "wide and deep trees", post=g.tree_events)
    ops = g.small_ops()
    idx = list(itertools.product(range(len(ops)), repeat=2))
    idx += [tuple(r.randrange(len(ops)) for _ in range(r.choice([3, 4, 5, 6]))) for _ in range(nsmall)]
    ck.conform(exe, "Trace_Tree", [g.small_program(i, ops) for i in idx], "all pairs and random sequences of a small world", post=g.tree_events)
    return ck.finish("model_checking", "random tree programs over two files, and all ordered pairs plus random sequences of the operations of a small world")


def check_p08(ck):
    m = 15 if ck.thorough else 1
    return tree_check(ck, 700 * m, [10, 20, 30, 45], 2500 * m)


def check_p09(ck):
    exe = build("asan")
    ck.model("MC_Tree", "MC_Tree_deep.cfg" if ck.thorough else None)
    r = ck.rng
    m = 20 if ck.thorough else 1
    ck.conform(exe, "Trace_Tree", [g.homog_program(r) for _ in range(3000 * m)], "homogeneous vectors", post=g.tree_events)
    ck.conform(exe, "Trace_Tree", [g.attach_program(r) for _ in range(1200 * m)], "attachment and ownership", post=g.tree_events)
    ck.conform(exe, "Trace_Tree", [g.tree_program(r, r.choice([20, 40]), 2) for _ in range(400 * m)], "random programs", post=g.tree_events)
    return ck.finish("model_checking", "vectors of equal, reordered and minimally different elements; prototypes, codecs and subtrees attached in random order; random programs")


def check_p10(ck):
    exe = build("asan")
    ck.model("MC_Tree")
    r = ck.rng
    m = 20 if ck.thorough else 1
    progs = [g.save_program(r, r.choice([3, 10, 25, 60])) for _ in range(700 * m)]
    ck.conform(exe, "Trace_Tree", progs, "saved trees", post=g.tree_events)
    wide = [(11, 3), (12, 40), (15, 8), (30, 5), (101, 12), (130, 3)] * (4 if ck.thorough else 1)
    ck.conform(exe, "Trace_Tree", [g.wide_program(r, k, d, True) for k, d in wide], "wide and deep trees", post=g.tree_events)
    leaves = [g.rand_leaf(r) for _ in range(9000 * m)]
    leaves += [g.string(chr(c) + "x" + chr(c)) for c in list(range(32, 0x180)) + [9, 10, 13, 0xd7ff, 0xe000, 0xfffd, 0x10000, 0x10ffff]]
    leaves += [g.string(a + b + c) for a in g.XML_BITS[:18] for b in g.XML_BITS[:18] for c in g.XML_BITS[:18]]
    leaves += [g.integer(v, lo, hi) for lo in (g.I64MIN, -1, 0, 1) for v in (g.I64MIN, -1, 0, 1, 5, g.I64MAX) for hi in (0, 1, 5, g.I64MAX) if lo <= v <= hi]
    ck.conform(exe, "Trace_Tree", [g.leaf_save_program(r, leaves[i:i + 60]) for i in range(0, len(leaves), 60)], "saved values", post=g.tree_events)
    return ck.finish("model_checking", "random trees of all node types with extreme values and markup in strings, saved and reopened; long lists of single values")


CHECKS = {"P08": check_p08, "P09": check_p09, "P10": check_p10}

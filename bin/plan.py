#!/usr/bin/env python3
"""What each check runs. `plan.py --table` writes harness/src/table.rs, `--doc` prints the bounds for DESIGN.md."""
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

QUICK_CAP = 200
THOROUGH_CAP = 1500
DEADLINE = {"quick": 780, "thorough": 6 * 3600}

ASSUMPTIONS = [
    "Pre-states: every well-formed forest of at most the stated number of node slots (ANY: in any numbering, "
    "with removed slots; ORD: nodes numbered in document order), either written into the storage through the "
    "hooks, or built through the public operations.",
    "One instantiation: node IDs of a type made by impl_dynamic_node_id! over NodeIdU8 and u8 data, except where the property is about others.",
    "The code is what rustc (stable) makes of /repo: LLVM IR at opt-level 2, with and without debug assertions.",
    "Allocation does not fail; the standard library is encoded as it is compiled into the IR.",
    "Trusted: rustc up to LLVM IR, the executor tsym, the SAT solver kissat; sample models are replayed natively on every run.",
]

# name -> (property, Rust expression, bound text)
H = {}
PROPS = {}


SHAPES = {"CHAIN": "a chain", "FAN": "a root with many children", "COMB": "a chain with leaves on both sides", "HEAP": "a complete binary tree"}


def bound_text(n, c):
    if c in SHAPES:
        return "a forest of %d slots (%s, a tree of 3 nodes, a removed slot), any nodes in it" % (n, SHAPES[c])
    return "every forest of up to %d slots%s" % (n, ", any numbering, with removed slots" if c == "ANY" else ", numbered in document order")


def h(prop, name, expr, bound, miss=(), opts=()):
    if name in H:
        name += "x"
    assert name not in H, name
    m = re.search(r"(\d+), (ANY|ORD)", expr)
    H[name] = {"prop": prop, "expr": expr, "bound": bound, "miss": set(miss), "slots": int(m.group(1)) if m else None, "any": bool(m and m.group(2) == "ANY"),
               "large": any(c in expr for c in SHAPES), "opts": list(opts)}
    return name


def prop(pid, title, quick, thorough, api, release):
    """quick: raw; thorough: further raw; api: with pre-states built by public operations; release:
    also without debug assertions."""
    PROPS[pid] = {"title": title, "quick": quick, "thorough": thorough, "api": api, "release": release}


def large(p, pat, expr, n, shapes=tuple(SHAPES)):
    """Large forests of a fixed shape, symbolic operands."""
    return [h(p, (pat + "_%s_%d") % (c.lower(), n), expr.format(n=n, c=c, b=n + 1), bound_text(n, c), (), ["--max-visits", "20000"]) for c in shapes]


def bulk(p, name, expr, ops, n):
    return [h(p, "bulk_%s_%d_%d" % (name, op, n), expr.format(n=n, c="ANY", op=op), bound_text(n, "ANY") + ", another method of the iterator after up to two steps") for op in range(ops)]


BIG = ["--max-visits", "1000000"]


def big(p, name, expr, shapes=tuple(SHAPES), n=300):
    """Forests of hundreds of nodes of a fixed shape."""
    if "{c}" not in expr:
        return [h(p, "big%s_%s" % (p[1:], name), expr.format(n=n), "a forest of %d nodes, some choices of the nodes" % n, (), BIG)]
    return [h(p, "big%s_%s_%s" % (p[1:], name, c.lower()), expr.format(n=n, c=c), "a forest of %d nodes (%s), some choices of the nodes" % (n, SHAPES[c]), (), BIG)
            for c in shapes]


DEST = ["first", "last", "before", "after"]


def sized(p, pat, expr, sizes, miss=lambda n, c: ()):
    """sizes: [(n, c)]; `expr` has {n} and {c}, `pat` has {n}."""
    return [h(p, pat.format(n=n), expr.format(n=n, c=c, b=n + 1), bound_text(n, c), miss(n, c)) for n, c in sizes]


def define():
    A, O = "ANY", "ORD"
    # P01
    q, t, a = [], [], []
    for k, nm in enumerate(DEST + ["detach", "single", "remove"]):
        a += sized("P01", "c1_%s_{n}" % nm, "seq::one::<{n}, {c}, %d>()" % k, [(3, A)])
        q += sized("P01", "c1_%s_{n}" % nm, "seq::one::<{n}, {c}, %d>()" % k, [(4, A), (7, O)])
        q += sized("P01", "c2_%s_{n}" % nm, "seq::two::<{b}, {n}, {c}, %d>()" % k, [(3, A)])
        q += sized("P01", "canon_%s_{n}" % nm, "seq::canonical::<{n}, {c}, %d>()" % k, [(4, A)])
        t += sized("P01", "c1_%s_{n}" % nm, "seq::one::<{n}, {c}, %d>()" % k, [(5, A), (9, O)])
        t += sized("P01", "c2_%s_{n}" % nm, "seq::two::<{b}, {n}, {c}, %d>()" % k, [(5, O)])
    for r, k, l in [(3, 3, q), (4, 3, q), (3, 4, t), (3, 5, t), (4, 4, t), (5, 3, t)]:
        l.append(h("P01", "hist_%d_%d" % (r, k), "seq::history::<%d, %d>()" % (r, k), "%d roots, then every sequence of %d operations" % (r, k),
                   ["a middle child"] if r == 3 else []))
    al = []
    for k, nm in enumerate(DEST + ["detach", "single", "remove"]):
        al += large("P01", "c1_" + nm, "seq::one::<{n}, {c}, %d>()" % k, 20)
        t += large("P01", "c1_" + nm, "seq::one::<{n}, {c}, %d>()" % k, 40)
    prop("P01", "links", q, t, a + al, a[:])
    # P02, P03
    q, t, a = [], [], []
    q3, t3, a3 = [], [], []
    al, al3 = [], []
    for k, nm in enumerate(DEST):
        a += sized("P02", "ins_%s_0_{n}" % nm, "ops::insert::<{n}, {c}, %d, 0>()" % k, [(3, A)], INS_MISS)
        q += sized("P02", "ins_%s_0_{n}" % nm, "ops::insert::<{n}, {c}, %d, 0>()" % k, [(4, A), (7, O), (8, O)], INS_MISS)
        t += sized("P02", "ins_%s_0_{n}" % nm, "ops::insert::<{n}, {c}, %d, 0>()" % k, [(5, A), (10, O), (12, O)])
        for v in (1, 2):
            q += sized("P02", "ins_%s_%d_{n}" % (nm, v), "ops::insert::<{n}, {c}, %d, %d>()" % (k, v), [(4, A)], INS_MISS)
            t += sized("P02", "ins_%s_%d_{n}" % (nm, v), "ops::insert::<{n}, {c}, %d, %d>()" % (k, v), [(8, O)])
        al += large("P02", "ins_" + nm, "ops::insert::<{n}, {c}, %d, 0>()" % k, 24)
        t += large("P02", "ins_" + nm, "ops::insert::<{n}, {c}, %d, 0>()" % k, 48)
        q += sized("P02", "eff_%s_{n}" % nm, "seq::effects::<{b}, {n}, {c}, %d, 3>()" % k, [(3, A)])
        t += sized("P02", "eff_%s_{n}" % nm, "seq::effects::<{b}, {n}, {c}, %d, 3>()" % k, [(4, A), (5, O)])
        al3 += large("P03", "ref_" + nm, "ops::refuse::<{n}, {c}, %d, 0>()" % k, 24)
        a3 += sized("P03", "ref_%s_0_{n}" % nm, "ops::refuse::<{n}, {c}, %d, 0>()" % k, [(3, A)])
        q3 += sized("P03", "ref_%s_0_{n}" % nm, "ops::refuse::<{n}, {c}, %d, 0>()" % k, [(4, A), (7, O), (9, O)])
        q3 += sized("P03", "ref_%s_1_{n}" % nm, "ops::refuse::<{n}, {c}, %d, 1>()" % k, [(4, A), (7, O)])
        t3 += sized("P03", "ref_%s_0_{n}" % nm, "ops::refuse::<{n}, {c}, %d, 0>()" % k, [(5, A), (12, O)])
    al += big("P02", "moves", "big::moves::<{n}, {c}, 1>()")
    al3 += big("P03", "loops", "big::moves::<{n}, {c}, 0>()", ("CHAIN", "COMB", "HEAP"))
    prop("P02", "insertion", q, t, a + al, a[:])
    prop("P03", "refusal", q3, t3, a3 + al3, a3[:])
    # P04
    q, t, a, al = [], [], [], []
    for k, nm in enumerate(DEST + ["root"]):
        for v in (0, 1):
            if k == 4 and v:
                continue
            e = "ops::create::<{b}, {n}, {c}, %d, %d>()" % (k, v)
            nn = "new_%s_%d_{n}" % (nm, v)
            q += sized("P04", nn, e, [(4, A), (7, O)])
            t += sized("P04", nn, e, [(5, A), (9, O), (11, O)])
            a += sized("P04", nn, e, [(3, A)])
            if v == 0:
                al += large("P04", "new_" + nm, e, 24)
                e = "ops::create_then::<{b}, {n}, {c}, %d>()" % k
                q += sized("P04", "newthen_%s_{n}" % nm, e, [(3, A)])
                t += sized("P04", "newthen_%s_{n}" % nm, e, [(4, A), (5, O)])
    for k in (2, 3):
        e = "ops::create_refused::<{b}, {n}, {c}, %d>()" % k
        q += sized("P04", "new_bad_%s_{n}" % DEST[k], e, [(4, A)])
        a += sized("P04", "new_bad_%s_{n}" % DEST[k], e, [(3, A)])
    prop("P04", "creation", q, t, a + al, a[:])
    # P05
    e = "ops::detach::<{n}, {c}, %d>()"
    q = sized("P05", "det_0_{n}", e % 0, [(4, A), (5, A), (8, O), (10, O)]) + sized("P05", "det_1_{n}", e % 1, [(4, A), (8, O)])
    t = sized("P05", "det_0_{n}", e % 0, [(6, A), (12, O), (14, O)])
    a = sized("P05", "det_0_{n}", e % 0, [(3, A)]) + sized("P05", "det_1_{n}", e % 1, [(3, A)])
    al = large("P05", "det", e % 0, 32) + big("P05", "detach", "big::moves::<{n}, {c}, 2>()")
    q += sized("P05", "eff_detach_{n}", "seq::effects::<{b}, {n}, {c}, 4, 3>()", [(3, A)])
    for s in range(3):
        q += sized("P05", "eff_detach_%d_{n}" % s, "seq::effects::<{b}, {n}, {c}, 4, %d>()" % s, [(4, A)])
    t += sized("P05", "eff_detach_{n}", "seq::effects::<{b}, {n}, {c}, 4, 3>()", [(5, O)])
    prop("P05", "detach", q, t, a + ["det_0_4"] + al, a)
    # P06
    e = "ops::detach_single::<{n}, {c}, %d>()"
    m = lambda n, c: ["several children take the place"] if n < 5 else []
    q = sized("P06", "sin_0_{n}", e % 0, [(4, A), (5, A), (7, O), (8, O)], m) + sized("P06", "sin_1_{n}", e % 1, [(4, A), (6, O)], m)
    t = sized("P06", "sin_0_{n}", e % 0, [(6, A), (10, O), (12, O)])
    a = sized("P06", "sin_0_{n}", e % 0, [(3, A)], m) + sized("P06", "sin_1_{n}", e % 1, [(3, A)], m)
    al = large("P06", "sin", e % 0, 24) + big("P06", "single", "big::moves::<{n}, {c}, 3>()")
    t += large("P06", "sin", e % 0, 48)
    q += sized("P06", "eff_single_{n}", "seq::effects::<{b}, {n}, {c}, 5, 3>()", [(3, A)])
    for s in range(3):
        q += sized("P06", "eff_single_%d_{n}" % s, "seq::effects::<{b}, {n}, {c}, 5, %d>()" % s, [(4, A)])
    t += sized("P06", "eff_single_{n}", "seq::effects::<{b}, {n}, {c}, 5, 3>()", [(5, O)])
    prop("P06", "detach_single", q, t, a + al, a[:])
    # P07
    q, t, a, al = [], [], [], []
    for v in range(6):
        e = "ops::remove::<{n}, {c}, %d>()" % v
        if v < 3:
            al += large("P07", "rem_%d" % v, e, 16) + big("P07", "remove_%d" % v, "big::remove::<{n}, {c}, %d>()" % v)
            t += large("P07", "rem_%d" % v, e, 24)
        q += sized("P07", "rem_%d_{n}" % v, e, [(4, A), (6, O)])
        t += sized("P07", "rem_%d_{n}" % v, e, [(5, A), (7, O), (8, O)])
        a += sized("P07", "rem_%d_{n}" % v, e, [(3, A)])
    for v in range(3):
        q += sized("P07", "drop_%d_{n}" % v, "ops::remove_drops::<{n}, %d>()" % v, [(3, A), (4, A)])
    q += sized("P07", "eff_remove_{n}", "seq::effects::<{b}, {n}, {c}, 6, 3>()", [(3, A)])
    for s in range(3):
        q += sized("P07", "eff_remove_%d_{n}" % s, "seq::effects::<{b}, {n}, {c}, 6, %d>()" % s, [(4, A)])
    t += sized("P07", "eff_remove_{n}", "seq::effects::<{b}, {n}, {c}, 6, 3>()", [(5, O)])
    prop("P07", "remove", q, t, a + al, a[:])
    # P09
    e = "ops::remove_panic::<{n}, {c}, %d>()"
    q = sized("P09", "pan_0_{n}", e % 0, [(3, A), (4, A), (5, O)]) + sized("P09", "pan_1_{n}", e % 1, [(4, A)]) + sized(
        "P09", "then_{n}", "ops::remove_panic_then::<{n}, {c}>()", [(3, A), (4, A)])
    t = sized("P09", "pan_0_{n}", e % 0, [(6, O), (7, O)]) + sized("P09", "then_{n}", "ops::remove_panic_then::<{n}, {c}>()", [(5, O)])
    al = large("P09", "pan", e % 0, 12) + big("P09", "panic", "big::remove::<{n}, {c}, 3>()")
    prop("P09", "panic", q, t, ["pan_0_3"] + al, ["pan_0_3", "pan_1_4", "then_3"])
    # P10
    q, t = [], []
    for v in range(4):
        q += sized("P10", "reuse_%d_{n}" % v, "ids::reuse::<{n}, {n}, %d>()" % v, [(3, A), (4, A)])
        t += sized("P10", "reuse_%d_{n}" % v, "ids::reuse::<{n}, {n}, %d>()" % v, [(5, A)])
    for v in range(3):
        q.append(h("P10", "over_%d" % v, "ids::overflow::<%d>()" % v, "the 255 IDs of NodeIdU8, then one more node"))
    al = []
    for v in range(3):
        e = "ids::reuse_many::<{n}, {n}, {c}, %d>()" % v
        al += large("P10", "many_%d" % v, e, 20) + big("P10", "remove_%d" % v, "big::remove::<{n}, {c}, %d>()" % v, ("FAN", "COMB"), 40)
        t += large("P10", "many_%d" % v, e, 40)
    prop("P10", "ids", q, t, ["reuse_%d_3" % v for v in range(4)] + al, ["reuse_%d_3" % v for v in range(4)] + ["over_%d" % v for v in range(3)])
    # P11
    q = []
    for v in ("u8", "u16", "u32", "u64", "usize"):
        q.append(h("P11", "id_%s" % v, "ids::id_%s()" % v, "all IDs of the type"))
    for v in ("u8", "u16", "u32", "u64", "usize", "custom", "named"):
        q.append(h("P11", "dist_%s" % v, "ids::distinct_%s()" % v, "a tree of %d nodes, any two of them" % (300 if v == "named" else 12)))
    prop("P11", "id types", q, [], q[5:], q[:])
    # P12
    q, t, a, al = [], [], [], []
    for v in range(31):
        q += sized("P12", "dead_%d_{n}" % v, "dead::dead::<{n}, {c}, %d>()" % v, [(4, A)])
        t += sized("P12", "dead_%d_{n}" % v, "dead::dead::<{n}, {c}, %d>()" % v, [(5, A)])
        a += sized("P12", "dead_%d_{n}" % v, "dead::dead::<{n}, {c}, %d>()" % v, [(3, A)])
        if v in (0, 4, 12, 13, 14, 28, 29, 30):
            al += large("P12", "dead_%d" % v, "dead::dead::<{n}, {c}, %d>()" % v, 20, ("COMB",))
    prop("P12", "dead", q, t, a + al, a[:])
    # P13
    q, t, a = [], [], []
    for v in range(3):
        q += sized("P13", "data_%d_{n}" % v, "ops::data::<{n}, {c}, %d>()" % v, [(4, A), (8, O)], lambda n, c: ["a removed node"] if c == O else [])
        a += sized("P13", "data_%d_{n}" % v, "ops::data::<{n}, {c}, %d>()" % v, [(3, A)])
        t += sized("P13", "data_%d_{n}" % v, "ops::data::<{n}, {c}, %d>()" % v, [(5, A), (12, O)], lambda n, c: ["a removed node"] if c == O else [])
    al = large("P13", "data", "ops::data::<{n}, {c}, 0>()", 32, ("COMB", "FAN")) + big("P13", "data", "big::read::<{n}, {c}>()", ("CHAIN", "COMB"))
    prop("P13", "data", q, t, a + al, a[:])
    # P14..P18
    e = "iter::dft::<{n}, {c}, %d>()"
    q = sized("P14", "dft_0_{n}", e % 0, [(3, A), (4, A), (5, O), (6, O)]) + sized("P14", "dft_1_{n}", e % 1, [(4, A)])
    t = sized("P14", "dft_0_{n}", e % 0, [(5, A), (7, O), (8, O)])
    q += bulk("P14", "dft", "bulk::dft::<{n}, {c}, {op}>()", 12, 4)
    t += bulk("P14", "dft", "bulk::dft::<{n}, {c}, {op}>()", 12, 5)
    al = large("P14", "dft", "iter::dft::<{n}, {c}, 0>()", 12) + big("P14", "dft", "big::dft::<{n}, {c}>()")
    t += large("P14", "dft", "iter::dft::<{n}, {c}, 0>()", 20)
    prop("P14", "dft", q, t, ["dft_0_3"] + al, ["dft_0_4"])
    e = "iter::shallow::<{n}, {c}, %d>()"
    m = lambda n, c: SHALLOW_MISS(n)
    q = sized("P15", "sha_0_{n}", e % 0, [(3, A), (4, A), (5, O)], m) + sized("P15", "sha_1_{n}", e % 1, [(3, A)], m)
    t = sized("P15", "sha_0_{n}", e % 0, [(6, O), (7, O)], m)
    q += bulk("P15", "sha", "bulk::shallow::<{n}, {c}, {op}>()", 12, 4)
    t += bulk("P15", "sha", "bulk::shallow::<{n}, {c}, {op}>()", 12, 5)
    al = large("P15", "sha", "iter::shallow::<{n}, {c}, 0>()", 10) + big("P15", "shallow", "big::shallow::<{n}, {c}>()")
    t += large("P15", "sha", "iter::shallow::<{n}, {c}, 0>()", 13)
    prop("P15", "shallow", q, t, ["sha_0_3"] + al, ["sha_0_3"])
    q, t = [], []
    m = lambda n, c: ["a proper subtree"] if n < 4 else []
    for v in range(4):
        e = "iter::bft::<{n}, {c}, %d>()" % v
        q += sized("P16", "bft_%d_{n}" % v, e, [(3, A), (4, A), (5, O)], m)
        t += sized("P16", "bft_%d_{n}" % v, e, [(6, O), (7, O)], m)
    q += ["bft_1_6"]
    t.remove("bft_1_6")
    al = []
    for v in range(2):
        q += bulk("P16", "bft_%d" % v, "bulk::bft::<{n}, {c}, %d, {op}>()" % v, 8 - v, 4)
        t += bulk("P16", "bft_%d" % v, "bulk::bft::<{n}, {c}, %d, {op}>()" % v, 8 - v, 5)
        al += large("P16", "bft_%d" % v, "iter::bft::<{n}, {c}, %d>()" % v, 12) + big("P16", "bft_%d" % v, "big::bft::<{n}, {c}, %d>()" % v)
        t += large("P16", "bft_%d" % v, "iter::bft::<{n}, {c}, %d>()" % v, 20)
    prop("P16", "bft", q, t, ["bft_%d_3" % v for v in range(4)] + al, ["bft_0_4", "bft_1_4"])
    q, t, a, al = [], [], [], []
    for k in range(5):
        for v in range(2):
            e = "iter::siblings::<{n}, {c}, %d, %d>()" % (k, v)
            q += sized("P17", "sib_%d_%d_{n}" % (k, v), e, [(4, A)] + ([(7, O)] if v == 0 else []))
            t += sized("P17", "sib_%d_%d_{n}" % (k, v), e, [(5, A), (9, O)] if v == 0 else [])
            a += sized("P17", "sib_%d_%d_{n}" % (k, v), e, [(3, A)])
        q += bulk("P17", "sib_%d" % k, "bulk::siblings::<{n}, {c}, %d, {op}>()" % k, 12, 4)
        al += large("P17", "sib_%d" % k, "iter::siblings::<{n}, {c}, %d, 0>()" % k, 20, ("FAN", "COMB")) + big("P17", "siblings_%d" % k, "big::siblings::<{n}, %d>()" % k)
    prop("P17", "siblings", q, t, a + al, a[:])
    q, t, a, al = [], [], [], []
    for k in range(2):
        for v in range(2):
            e = "iter::ancestors::<{n}, {c}, %s, %d>()" % (["false", "true"][k], v)
            q += sized("P18", "anc_%d_%d_{n}" % (k, v), e, [(4, A)] + ([(8, O)] if v == 0 else []))
            t += sized("P18", "anc_%d_%d_{n}" % (k, v), e, [(5, A), (12, O)] if v == 0 else [])
            a += sized("P18", "anc_%d_%d_{n}" % (k, v), e, [(3, A)])
        q += bulk("P18", "anc_%d" % k, "bulk::ancestors::<{n}, {c}, %s, {op}>()" % ["false", "true"][k], 8, 4)
        al += large("P18", "anc_%d" % k, "iter::ancestors::<{n}, {c}, %s, 0>()" % ["false", "true"][k], 32, ("CHAIN", "COMB"))
    al += big("P18", "ancestors", "big::ancestors::<{n}, {c}>()")
    prop("P18", "ancestors", q, t, a + al, a[:])
    # P19, P20, P25
    m = lambda n, c: ["a proper subtree"] if n < 4 else []
    q = sized("P19", "loc_{n}", "clone::local::<{n}, {c}>()", [(3, A), (4, A), (5, O), (6, O)], m) + sized(
        "P19", "locp_{n}", "clone::local_plain::<{n}, {c}>()", [(3, A), (4, O)])
    t = sized("P19", "loc_{n}", "clone::local::<{n}, {c}>()", [(5, A), (7, O), (8, O)])
    al = large("P19", "loc", "clone::local::<{n}, {c}>()", 12) + big("P19", "clone", "big::clone::<{n}, {c}, 0>()")
    t += large("P19", "loc", "clone::local::<{n}, {c}>()", 24)
    prop("P19", "clone", q, t, ["loc_3", "locp_3"] + al, ["loc_4", "locp_3"])
    q = [h("P20", "for_%d_%d" % (n, d), "clone::foreign::<%d, %s, %d>()" % (n, c, d), bound_text(n, c) + ", cloned into a forest of %d nodes" % d,
           ["a proper subtree"] if n < 4 else []) for n, c, d in [(3, A, 2), (4, A, 2), (5, O, 2), (6, O, 1)]] + sized(
        "P20", "forp_{n}", "clone::foreign_plain::<{n}, {c}>()", [(3, A), (4, O)])
    t = [h("P20", "for_%d_%d" % (n, d), "clone::foreign::<%d, %s, %d>()" % (n, c, d), bound_text(n, c) + ", cloned into a forest of %d nodes" % d)
         for n, c, d in [(7, O, 1), (8, O, 1), (5, O, 5)]]
    al = large("P20", "for", "clone::foreign::<{n}, {c}, 2>()", 12) + big("P20", "clone", "big::clone::<{n}, {c}, 1>()")
    t += large("P20", "for", "clone::foreign::<{n}, {c}, 2>()", 24)
    prop("P20", "foreign clone", q, t, ["for_3_2", "forp_3"] + al, ["for_4_2", "forp_3"])
    q = sized("P25", "whole_{n}", "clone::whole::<{n}, {c}>()", [(3, A), (4, A), (7, O)])
    t = sized("P25", "whole_{n}", "clone::whole::<{n}, {c}>()", [(5, A), (9, O)])
    for v in range(8):
        e = "clone::whole_then::<{n}, {c}, %d>()" % v
        q += sized("P25", "wthen_%d_{n}" % v, e, [(3, A), (4, A), (6, O)])
        t += sized("P25", "wthen_%d_{n}" % v, e, [(5, A), (8, O)])
    for n, c, d, l in [(3, A, 4, q), (4, A, 2, q), (2, A, 6, q), (4, A, 5, q), (8, O, 3, q), (5, A, 3, t), (10, O, 3, t)]:
        l.append(h("P25", "over_%d_%d" % (n, d), "clone::over::<%d, %s, %d>()" % (n, c, d), bound_text(n, c) + ", cloned over a forest of %d slots" % d))
    al = large("P25", "whole", "clone::whole::<{n}, {c}>()", 16) + big("P25", "clone", "big::clone::<{n}, {c}, 2>()")
    t += large("P25", "whole", "clone::whole::<{n}, {c}>()", 32)
    prop("P25", "whole clone", q, t, ["whole_3", "over_2_6"] + ["wthen_%d_3" % v for v in range(8)] + al, ["whole_3", "over_2_6"])
    # P26
    q, t, a = [], [], []
    for v in range(3):
        e = "fault::local::<{n}, {c}, %d>()" % v
        q += sized("P26", "floc_%d_{n}" % v, e, [(3, A), (4, A), (5, O)] if v < 2 else [(3, A), (4, O)])
        t += sized("P26", "floc_%d_{n}" % v, e, [(6, O), (7, O)])
        for n, c, d, l in [(3, A, 2, q), (4, O, 2, q), (5, O, 2, t), (6, O, 2, t)]:
            l.append(h("P26", "ffor_%d_%d" % (v, n), "fault::foreign::<%d, %s, %d, %d>()" % (n, c, d, v), bound_text(n, c) + ", cloned into a forest of %d nodes" % d))
        a += ["floc_%d_3" % v, "ffor_%d_3" % v]
    q += sized("P26", "fwhole_{n}", "fault::whole::<{n}, {c}>()", [(3, A), (4, A), (6, O)])
    t += sized("P26", "fwhole_{n}", "fault::whole::<{n}, {c}>()", [(5, A), (8, O)])
    prop("P26", "panic while cloning", q, t, a + ["fwhole_3"], a + ["fwhole_3"])
    # P27
    q, t, a = [], [], []
    for v in range(35):
        e = "dead::blame::<{n}, {c}, %d>()" % v
        q += sized("P27", "blame_%d_{n}" % v, e, [(3, A)])
        t += sized("P27", "blame_%d_{n}" % v, e, [(4, A)])
        a.append("blame_%d_3" % v)
    for v in range(8):
        e = "dead::blame_live::<{n}, {c}, %d>()" % v
        q += sized("P27", "refuse_%d_{n}" % v, e, [(3, A), (4, A)])
        t += sized("P27", "refuse_%d_{n}" % v, e, [(5, A)])
        a.append("refuse_%d_3" % v)
    for k, l in [(2, q), (3, q), (4, t)]:
        l.append(h("P27", "bchain_%d" % k, "dead::blame_chain::<%d>()" % k, "every sequence of %d builder calls, then one that may be refused" % k))
    for v in range(3):
        q.append(h("P27", "bover_%d" % v, "ids::overflow::<%d>()" % v, "the 255 IDs of NodeIdU8, then one more node"))
    prop("P27", "blame", q, t, a + ["bchain_2"], a + ["bchain_2", "bover_0"])
    # P28
    q, t, a = [], [], []
    for v in range(2):
        e = "iter::no_heap::<{n}, {c}, %d>()" % v
        q += sized("P28", "noheap_%d_{n}" % v, e, [(4, A), (6, O)])
        t += sized("P28", "noheap_%d_{n}" % v, e, [(5, A), (7, O)])
        a += sized("P28", "noheap_%d_{n}" % v, e, [(3, A)])
    prop("P28", "no allocation", q, t, a, a[:])
    # P21, P22
    q, t, a = [], [], []
    for k in range(4):
        for n, c, l in [(3, A, q), (4, O, q), (6, O, t), (2, A, a)]:
            l.append(h("P21", "step_%d_%d" % (k, n), "build::chain_step::<%d, %d, %s, %d>()" % (n + 3, n, c, k), bound_text(n, c) + ", then a builder and one step"))
    for k, l in [(3, q), (4, q), (5, q), (6, q), (7, t), (8, t)]:
        l.append(h("P21", "chain_%d" % k, "build::chain::<%d, %d>()" % (k + 1, k), "every sequence of %d builder calls" % k))
    al = big("P21", "down", "big::builder::<{n}, 0>()") + big("P21", "along", "big::builder::<{n}, 1>()")
    prop("P21", "chain builder", q, t, a + al, a + ["chain_4"])
    q, t = [], []
    for d, k, l in [(1, 4, q), (1, 6, q), (1, 8, q), (2, 3, q), (2, 4, q), (2, 5, q), (3, 3, q), (3, 4, q), (2, 6, t), (3, 5, t), (3, 6, t)]:
        l.append(h("P22", "nest_%d_%d" % (d, k), "build::nest::<%d, %d, %d>()" % (k, k + 1, d), "every description of up to %d items, nested up to %d deep" % (k, d)))
    prop("P22", "nest builder", q, t, big("P22", "nest", "big::builder::<{n}, 2>()"), ["nest_3_3", "nest_2_4"])
    # P23
    q = sized("P23", "nav_{n}", "ops::neighbours::<{n}, {c}>()", [(4, A), (8, O)])
    t = sized("P23", "nav_{n}", "ops::neighbours::<{n}, {c}>()", [(6, A), (12, O)])
    a = sized("P23", "nav_{n}", "ops::neighbours::<{n}, {c}>()", [(3, A)])
    al = large("P23", "nav", "ops::neighbours::<{n}, {c}>()", 32) + big("P23", "nav", "big::read::<{n}, {c}>()")
    prop("P23", "navigation", q, t, a + al, a[:])
    # P24
    q, t, a = [], [], []
    m = lambda n, c: ["a grandchild's line"] if n < 3 else []
    for v in range(5):
        for d in range(2):
            if v > 2 and d:
                continue
            e = "print::print::<{w}, {n}, {c}, %d, %s>()" % (v, ["false", "true"][d])
            nn = "prt_%d_%d_{n}" % (v, d)
            for n, c, l in [(2, A, q), (3, A, q), (4, A, q), (5, O, q), (6, O, t), (7, O, t)]:
                if v == 0 and n == 6:
                    l = q
                if v > 2 and n == 5:
                    l = t
                l += sized("P24", nn, e.replace("{w}", str(4 * n - 2)), [(n, c)], m)
                if n == 3:
                    a.append(l[-1])
    for v in range(2):
        for d in range(2):
            e = "print::fails::<{n}, {c}, %s, %d>()" % (["false", "true"][d], v)
            q += sized("P24", "fail_%d_%d_{n}" % (v, d), e, [(3, A), (4, A), (6, O)])
            t += sized("P24", "fail_%d_%d_{n}" % (v, d), e, [(5, A), (7, O)])
            a.append("fail_%d_%d_3" % (v, d))
    al = large("P24", "prt", "print::print::<50, {n}, {c}, 0, false>()", 13) + large("P24", "prt2", "print::print::<38, {n}, {c}, 2, false>()", 10, ("CHAIN", "COMB")) + big("P24", "print", "big::print::<{n}, {c}>()", n=100)
    prop("P24", "debug print", q, t, a + al, a[:])


INS_MISS = lambda n, c: []
SHALLOW_MISS = lambda n: []


def jobs(pid, tier):
    p = PROPS[pid]
    j = [("raw", x) for x in p["quick"]] + [("rawr", x) for x in p["release"]] + [("api", x) for x in p["api"]]
    if tier == "thorough":
        j += [("raw", x) for x in p["thorough"]] + [("apir", x) for x in p["api"]]
    return j


def fallback(pid, tier):
    """Harnesses that decide the property when the raw pre-states cannot be used."""
    p = PROPS[pid]
    out = list(p["api"])
    for x in p["quick"]:
        n = H[x]["slots"]
        if x not in out and (n is None or n <= 4 and H[x]["any"]) and not x.startswith("canon_"):
            out.append(x)
    return out


def bound(name):
    return H[name]["bound"]


def may_miss(name, label):
    """Whether a situation is out of reach for the size of the harness."""
    return H[name]["large"] or H[name]["opts"] or label in H[name]["miss"] or (H[name]["slots"] or 9) <= 3 and not label.startswith("(")


def costs():
    try:
        with open(os.path.join(ROOT, "bin", "costs.json")) as f:
            return json.load(f)
    except OSError:
        return {}


def known_findings():
    try:
        with open(os.path.join(ROOT, "known_findings.json")) as f:
            return [k for k in json.load(f)["findings"] if k.get("status") == "open"]
    except OSError:
        return []


define()


def table():
    s = "// Written by bin/plan.py --table.\nharnesses! {\n"
    by = {}
    for n, x in H.items():
        by.setdefault(x["prop"], []).append((n, x["expr"]))
    for p in sorted(by):
        s += '    "%s" {\n' % p
        for n, e in by[p]:
            s += "        %s = %s;\n" % (n, e)
        s += "    }\n"
    return s + "}\n"


def doc():
    """The table of bounds of DESIGN.md."""
    def cell(names):
        sizes, shapes, rest = {"any": set(), "ord": set()}, {}, {}
        for n in names:
            x = H[n]
            if x["large"] or x["opts"]:
                m = re.search(r"(\d+), (?:%s)" % "|".join(SHAPES), x["expr"]) or re.search(r"<(\d+)", x["expr"])
                shapes.setdefault(int(m.group(1)), 0)
                shapes[int(m.group(1))] += 1
            elif x["slots"]:
                sizes["any" if x["any"] else "ord"].add(x["slots"])
            else:
                rest.setdefault(x["bound"], 0)
        out = [", ".join("%s %s" % (k, " ".join(map(str, sorted(v)))) for k, v in sizes.items() if v)]
        out += ["shapes " + " ".join(map(str, sorted(shapes)))] if shapes else []
        t = list(rest)
        out += t if len(t) <= 2 else [t[0], "…", t[-1]]
        return "; ".join(o for o in out if o) or "–"
    rows = []
    for p in sorted(PROPS):
        x = PROPS[p]
        rows.append("| %s | %s (%d) | %s (%d) | %s (%d) |" % (p, cell(x["quick"]), len(x["quick"]), cell(x["api"]), len(x["api"]), cell(x["thorough"]), len(x["thorough"])))
    return "\n".join(rows)


if __name__ == "__main__":
    if sys.argv[1:] == ["--doc"]:
        print(doc())
    elif sys.argv[1:] == ["--table"]:
        with open(os.path.join(ROOT, "harness", "src", "table.rs"), "w") as f:
            f.write(table())
    else:
        for p in sorted(PROPS):
            print(p, {k: len(v) for k, v in PROPS[p].items() if isinstance(v, list)})

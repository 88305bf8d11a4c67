"""Thermodynamic objects have no observable memory."""
import gc
import itertools
import numpy as np
import thermodynamics as td
from .. import faults
from ..common import build, geo
from ..engine import digest, pristine

ID = "C11"
TIMEOUT = 250
RULE = ("one case per configuration and prefix of two requests: all continuations up to the depth; after every request the "
        "observation is compared with the one of a freshly constructed object on a fresh geometry in a fresh process; "
        "one case per object, first request and request interrupted by an exception of a material: every evaluation of a material "
        "is the point of interruption once, each followed by every request; one case per ordered pair of related objects; non-trivial: sequences with at least two different requests (distinct object states are counted)")
BOUNDS = {"quick": "all sequences of length 3 over 11 requests for 5 objects (solid, numerical zeroth term, layered, trace, single "
                   "round trip), of length 4 for the solid one, all of length 4 over 7 requests for two others, all of length 3 over 6 requests on "
                   "either of two objects sharing one geometry (3 pairs); all histories of a request, a request interrupted at any evaluation of a "
                   "material (3 kinds of exception) and a third request, over 6 requests and 5 objects; all ordered pairs of 14 objects that "
                   "differ in one respect, sharing their geometry, alive together and one after the other, 7 pairs of requests",
          "thorough": "length 4 over all requests, length 5 over 7 requests, length 4 for the pairs"}
ASSUMPTIONS = ["the observation on a fresh object in a fresh process is the oracle", "agreement within 1e-10"]

OPS = ["free", "entropy", "terms 0", "terms 1", "terms step 2", "all", "all 0", "e0", "force", "geometry", "scribble"]
FOPS = ["free", "entropy", "terms 0", "terms step 2", "all 0", "geometry"]
MID = ["free", "entropy", "terms 1", "all 0", "force", "geometry", "scribble"]
SMALL = ["free", "entropy", "all", "force", "e0", "scribble"]
GEO = {
    "solid": (geo(1.0, 1.4, 3.0, "drude", "ps", "vac", 1, 2), "lndet"),
    "layer": (geo([0.6, 1.0], 1.4, 3.0, ["drude", "ps", "vac"], "ps", "vac", 1, 2), "lndet"),
    "trace": (geo(1.0, 1.2, 3.4, "drude", "ps", "vac", 1, 1), "trace"),
}
# name -> (geometry, class, deltaT, nmax, Tmax, keywords)
OBJ = {
    "solid": ("solid", "finiteT", 0.5, 3, 1.5, {}),
    "solid2": ("solid", "finiteT", 0.8, 4, 3.2, {}),
    "num": ("solid", "finiteT", 0.5, 2, 1.0, {"analytic_n0": False}),
    "layer": ("layer", "finiteT", 0.5, 2, 1.0, {}),
    "trace": ("trace", "finiteT", 0.5, 2, 1.0, {"analytic_n0": False}),
    "one": ("solid", "oneRoundtrip", 0.5, 2, 1.0, {}),
}
# thermodynamic objects that differ from the first one in a single respect: (geometry changes, class, deltaT, nmax, Tmax, keywords)
KIN = {
    "base": ({}, "finiteT", 0.5, 2, 1.0, {}), "deltaT": ({}, "finiteT", 0.25, 2, 0.5, {}), "nmax": ({}, "finiteT", 0.5, 3, 1.0, {}),
    "Tmax": ({}, "finiteT", 0.5, 2, 1.5, {}), "numerical": ({}, "finiteT", 0.5, 2, 1.0, {"analytic_n0": False}),
    "one": ({}, "oneRoundtrip", 0.5, 2, 1.0, {}), "steps": ({}, "finiteT", 0.5, 2, 2.0, {}),
    "r1": ({"r1": 0.9}, "finiteT", 0.5, 2, 1.0, {}), "L": ({"L": 3.1}, "finiteT", 0.5, 2, 1.0, {}), "mat1": ({"mat1": "mag"}, "finiteT", 0.5, 2, 1.0, {}),
    "medium": ({"mat3": "eth"}, "finiteT", 0.5, 2, 1.0, {}), "lmax": ({"lmax": 2}, "finiteT", 0.5, 2, 1.0, {}),
    "layered": ({"r1": [0.6, 1.0], "mat1": ["drude", "ps", "vac"]}, "finiteT", 0.5, 2, 1.0, {}),
    "trace": ({"evaluation": "trace"}, "finiteT", 0.5, 2, 1.0, {"analytic_n0": False}),
}
KINOPS = [("free", "free"), ("terms 0", "terms 0"), ("free", "entropy"), ("entropy", "free"), ("all 0", "terms step 2"), ("e0", "e0"), ("terms 0", "free")]
HOW = ["at the same time", "one after the other"]


def kin(name, geos):
    """geos: geometries alive, shared by objects whose geometry is the same"""
    ch, cls, dT, nmax, Tmax, kw = KIN[name]
    key = repr(ch)
    if key not in geos:
        ch = dict(ch)
        ev = ch.pop("evaluation", "lndet")
        geos[key] = build(dict(geo(1.0, 1.4, 3.0, "drude", "ps", "vac", 1, 2), **ch), precision=1e-8, evaluation=ev)
    return getattr(td, cls)(dT, nmax, Tmax, geos[key], **kw)


def make(name, pool):
    g, cls, dT, nmax, Tmax, kw = OBJ[name]
    if g not in pool:
        gg, ev = GEO[g]
        pool[g] = build(gg, precision=1e-8, evaluation=ev)
    return getattr(td, cls)(dT, nmax, Tmax, pool[g], **kw)


def do(f, op):
    if op == "free":
        return f.free_energy()
    if op == "entropy":
        return f.entropy()
    if op == "terms 0":
        return f.get_f_matsubaras(0)
    if op == "terms 1":
        return f.get_f_matsubaras(1)
    if op == "terms step 2":
        return f.get_f_matsubaras(0, 2)
    if op == "all":
        return f.F_alle(np.array([0.7, 0.4]))
    if op == "all 0":
        return f.F_alle(np.array([0.0, 0.4]))
    if op == "e0":
        return f.e0(0.5, 0.6)
    if op == "force":
        return f.force()
    if op == "geometry":
        return f.geometry.single_m(1, np.array([0.3, 0.7]))
    raise KeyError(op)


def outcome(fn):
    try:
        r = fn()
        return "value", np.asarray(r, dtype=float).copy(), r
    except Exception as e:
        return "raises " + type(e).__name__, None, None


_FRESH = {}


def prepare(tier):
    for name in OBJ:
        for op in OPS:
            if op != "scribble":
                _FRESH[name, op] = pristine(lambda: outcome(lambda: do(make(name, {}), op))[:2])
    for name in KIN:
        for op in sorted({o for p in KINOPS for o in p}):
            _FRESH[("kin", name), op] = pristine(lambda: outcome(lambda: do(kin(name, {}), op))[:2])


def summary(f):
    out = []
    for o in (f, f.geometry):
        for k, v in sorted(vars(o).items()):
            if isinstance(v, np.ndarray):
                out.append((k, v.shape, digest(["%.9e" % x for x in v.ravel()])))
            elif isinstance(v, (int, float, str, type(None))):
                out.append((k, v))
    return out


def cases(tier):
    out = []
    th = tier == "thorough"

    def add(tag, conf, ops, depth):
        alpha = [[i, o] for i in range(len(conf)) for o in ops]
        for p in itertools.product(alpha, repeat=2):
            out.append({"id": "%s %s: %s" % (tag, "+".join(conf), "; ".join("%d:%s" % tuple(x) for x in p)),
                        "conf": conf, "prefix": [list(x) for x in p], "ops": ops, "depth": depth})
    for c in ("solid", "num", "layer", "trace", "one"):
        add("all", [c], OPS, 4 if th or c == "solid" else 3)
    for c in ("solid2", "num"):
        add("deep", [c], MID, 5 if th else 4)
    for pair in (["solid", "solid2"], ["solid2", "num"], ["one", "solid"]):
        add("pair", pair, SMALL, 4 if th else 3)
    for c in ("solid", "num", "layer", "trace", "one"):
        for a, b in itertools.product(["none"] + FOPS, FOPS):
            for kind in ("error", "attribute", "interrupt"):
                if kind != "error" and a not in ("none", "free") and not th:
                    continue
                out.append({"id": "fault %s: %s; %s with %s" % (c, a, b, kind), "conf": [c], "fault": kind, "a": a, "b": b})
    for how in HOW:
        for a, b in itertools.permutations(KIN, 2):
            out.append({"id": "kin %s: %s, %s" % (how, a, b), "kin": [a, b], "how": how})
    return out


def run_kin(case, ctx):
    """two objects that differ in one respect, on one geometry if that is the same, alive together or one after the other"""
    a, b = case["kin"]
    for p, q in KINOPS:
        geos = {}
        f = kin(a, geos)
        hist = "%s of [%s]" % (p, a)
        ctx.op(2)
        if not same(ctx, ("kin", a), p, outcome(lambda: do(f, p)), hist):
            return
        hist += "; %s of [%s] %s" % (q, b, case["how"])
        if case["how"] == HOW[1]:
            del f
            if (p, q) in KINOPS[:2]:
                geos = {}
            gc.collect()
        h = kin(b, geos)
        if not same(ctx, ("kin", b), q, outcome(lambda: do(h, q)), hist):
            return
        if case["how"] == HOW[0] and not same(ctx, ("kin", a), p, outcome(lambda: do(f, p)), hist + "; %s of [%s]" % (p, a)):
            return
        ctx.state(case["how"], a, b, p, q)


def execute(case, seq, ctx):
    pool = {}
    objs = [make(c, pool) for c in case["conf"]]
    last = None
    for n, (i, op) in enumerate(seq):
        if op == "scribble":
            if isinstance(last, np.ndarray) and last.flags.writeable:
                last[...] = 77.7
            continue
        ctx.op()
        kind, obs, last = outcome(lambda: do(objs[i], op))
        wkind, want = _FRESH[case["conf"][i], op]
        if kind != wkind or (want is not None and (
                obs.size != want.size or
                not np.all(np.abs(obs.ravel() - want.ravel()) <= 1e-10 * np.abs(want.ravel()) + 1e-14))):
            ctx.check(False, "history", "after [%s]: %s %s, a fresh object gives %s %s" % (
                "; ".join("%s.%s" % (case["conf"][a], b) for a, b in seq[:n + 1]), kind,
                None if obs is None else obs.ravel()[:4].tolist(), wkind,
                None if want is None else want.ravel()[:4].tolist()))
            return
        ctx.points += 1 if want is None else want.size
        ctx.outcome(op, wkind, None if want is None else ["%.9e" % v for v in want.ravel()[:4]])
    ctx.state([summary(o) for o in objs])


def same(ctx, conf, op, got, hist):
    kind, obs, _ = got
    wkind, want = _FRESH[conf, op]
    ok = kind == wkind and (want is None or obs.size == want.size and
                            np.all(np.abs(obs.ravel() - want.ravel()) <= 1e-10 * np.abs(want.ravel()) + 1e-14))
    ctx.outcome(op, wkind)
    ctx.points += 1 if want is None else want.size
    return ok or ctx.check(False, "history", "after [%s]: %s %s, a fresh object gives %s %s" % (
        hist, kind, None if obs is None else obs.ravel()[:4].tolist(), wkind, None if want is None else want.ravel()[:4].tolist()))


def run_fault(case, ctx):
    """first request, one interrupted at its n-th use of a material for every n, then each request"""
    conf, (a, b) = case["conf"][0], (case["a"], case["b"])
    n = 0
    while n < 2000:
        n += 1
        for c in FOPS:
            f = make(conf, {})
            if a != "none":
                ctx.op()
                if not same(ctx, conf, a, outcome(lambda: do(f, a)), a):
                    return
            ctx.op(2)
            with faults.at(n, case["fault"]) as st:
                try:
                    got = outcome(lambda: do(f, b))
                except KeyboardInterrupt:
                    got = ("raises KeyboardInterrupt", None, None)
            if not st["hit"]:
                return
            hist = "%s; %s interrupted at evaluation %d of a material" % (a, b, n)
            if got[0] == "value" and not same(ctx, conf, b, got, hist):
                return
            if not same(ctx, conf, c, outcome(lambda: do(f, c)), hist + "; " + c):
                return
            ctx.state(summary(f))
    ctx.check(False, "fault", "no end of evaluations")


def run(case, ctx):
    if "kin" in case:
        return run_kin(case, ctx)
    if "fault" in case:
        return run_fault(case, ctx)
    alpha = [[i, o] for i in range(len(case["conf"])) for o in case["ops"]]
    for tail in itertools.product(alpha, repeat=case["depth"] - len(case["prefix"])):
        execute(case, [tuple(x) for x in case["prefix"]] + [tuple(x) for x in tail], ctx)
        if ctx.fails:
            return

"""Geometry objects have no observable memory."""
import gc
import itertools
import numpy as np
import geometry
from ..common import mat, build, geo
from .. import faults
from ..engine import digest, pristine

ID = "C10"
TIMEOUT = 250
K1, K2, K3, K4 = [0.4, 1.9], [1.9, 0.4], [0.7], [0.4, 1.9, 3.3]
RULE = ("one case per configuration and prefix of two operations: all continuations up to the depth; after every "
        "operation the observation is compared with the one of a freshly constructed object; one case per "
        "configuration, first operation and operation interrupted by an exception of a material: every evaluation of a material "
        "is the point of interruption once, each followed by every operation; one case per ordered pair of related geometries; non-trivial: "
        "sequences with at least two different operations (distinct object states are counted)")
BOUNDS = {"quick": "all sequences of length 3 over 20 operations for spheres outside, inside and layered, over 12 operations for "
                   "coated spheres and trace evaluation, over 7 operations on either of two objects sharing materials (3 pairs), over 12 "
                   "wavenumber arrays that are nearly equal, tiny or share ends or sums; all of length 4 over 12 operations (outside, "
                   "inside), 8 (coated) and over 10 combinations of m = 0..4 and two arrays; all histories of an operation, an operation "
                   "interrupted at any evaluation of a material (4 kinds of exception), and a third operation, over 9 operations; all ordered pairs of 23 geometries that differ in one respect, "
                   "alive together and one after the other, 7 pairs of operations",
          "thorough": "all sequences of length 4 over the 20 operations for solid, inside and layered, length 3 and the "
                      "reduced alphabet at length 5 for the rest"}
ASSUMPTIONS = ["the observation on a fresh object in a fresh process is the oracle", "agreement within 1e-10"]

OPS = ["sum K1", "sum K2", "sum K3", "sum K4", "m0 K1", "m2 K1", "m1 K2", "m1 K3", "m1 K4", "static", "static m1", "sum 0K1",
       "one K1", "trips K1", "blocks K1", "force K1", "bufsum", "flip", "scribble", "sum KZ"]
# wavenumbers that a careless comparison takes for equal: nearly equal, tiny, same ends, same sum, integers
NEAR = {"m1 N1": [0.4, 1.1, 3.3], "m1 N2": [0.4, 1.9000001], "m1 N3": [2e-9], "m1 N4": [5e-9], "m1 N5": [0.4, 0.4, 1.9], "m1 N6": [1.1, 1.2],
        "m1 N7": [0.4, 2.6, 2.6], "m1 N8": [2.0], "m1 N9": [2], "m1 N10": [0.7, 0.7]}
LADDER = ["m%d %s" % (m, k) for k in ("L1", "L2") for m in range(5)]
CONF = {
    "four": geo(0.8, 1.1, 2.6, "ps", "drude", "eth", 4, 5),
    "four in": geo(0.5, 2.0, 0.9, "mag", "drude", "vac", 4, 4),
    "ext": geo(1.0, 1.4, 3.0, "drude", "ps", "eth", 2, 3),
    "int": geo(0.5, 2.0, 0.9, "mag", "drude", "vac", 2, 3),
    "layer": geo([0.6, 1.0], [0.5, 0.7, 1.4], 3.0, ["drude", "ps", "eth"], ["ps", "mag", "eth", "eth"], "eth", 2, 2),
    "trace": geo(1.0, 1.4, 3.4, "drude", "plasma01", "vac", 2, 2),
    "other": geo(0.9, 0.8, 3.1, "drude", "mag", "eth", 2, 2),
}
# geometries that differ from the first one in a single respect; "twin" materials: same name, other oscillators
KIN = {"base": {}, "r1": {"r1": 0.9}, "r2": {"r2": 1.0}, "L": {"L": 2.7}, "mat1": {"mat1": "mag"}, "mat2": {"mat2": "ps"},
       "mat3": {"mat3": "vac"}, "lmax": {"lmax": 3}, "lssmax": {"lssmax": 4}, "inside": {"r2": 4.5}, "inside mat2": {"r2": 4.5, "mat2": "mag"},
       "swapped": {"r1": 1.1, "r2": 0.8}, "swapped materials": {"mat1": "drude", "mat2": "ps"}, "gamma": {"mat2": "drude_ps"},
       "layered": {"r1": [0.5, 0.8], "mat1": ["drude", "ps", "eth"]}, "inner radius": {"r1": [0.6, 0.8], "mat1": ["drude", "ps", "eth"]},
       "inner material": {"r1": [0.5, 0.8], "mat1": ["mag", "ps", "eth"]}, "both layered": {"r1": [0.5, 0.8], "mat1": ["drude", "ps", "eth"], "r2": [0.5, 1.1], "mat2": ["ps", "drude", "eth"]},
       "trace": {"evaluation": "trace", "mat2": "ps"}, "coarse": {"precision": 0.5}, "coated": {"coat": [0.5, 0.6]}, "coated inner radius": {"coat": [0.4, 0.6]},
       "nearly": {"L": 2.6000000001, "r1": 0.81}}
KINOPS = [("sum K1", "sum K1"), ("one K1", "one K1"), ("static", "static"), ("blocks K1", "blocks K1"), ("sum K1", "static"), ("static", "sum K1"), ("m2 K1", "m1 K1")]
HOW = ["at the same time", "one after the other"]


def kin(name):
    """a new geometry of new materials, all of them called the same"""
    g = dict(geo(0.8, 1.1, 2.6, "ps", "drude", "eth", 2, 3), **KIN[name])
    kw = {k: g.pop(k) for k in ("evaluation", "precision") if k in g}
    pool = {}
    for n in sum([x if isinstance(x, list) else [x] for x in (g["mat1"], g["mat2"], g["mat3"])], []):
        if n not in pool:
            pool[n] = mat(n)
            pool[n].name = "sample"
    if "coat" in g:
        ri = g["coat"]
        return geometry.CoatedSphereSphere(ri[0], g["r1"], pool["drude"], pool["ps"], ri[1], g["r2"], pool["ps"], pool["drude"], g["L"],
                                           pool["eth"], g["lmax"], g["lssmax"])
    return build(g, pool, **dict(dict(precision=1e-10), **kw))


def make(conf, pool):
    def get(n):
        if n not in pool:
            pool[n] = mat(n)
        return pool[n]
    if conf == "coated":
        return geometry.CoatedSphereSphere(0.5, 1.0, get("drude"), get("ps"), 0.9, 1.4, get("mag"), get("drude"), 3.0,
                                           get("eth"), 2, 2)
    if conf == "trace":
        return build(CONF[conf], pool, evaluation="trace", precision=1e-8)
    return build(CONF[conf], pool, precision=1e-10)


def do(G, op, buf):
    """returns the observation (nested lists of floats) and the raw result"""
    a = np.array
    if op == "sum K1":
        r = G.mSumme(a(K1))
    elif op == "sum K2":
        r = G.mSumme(a(K2))
    elif op == "sum K3":
        r = G.mSumme(a(K3))
    elif op == "sum K4":
        r = G.mSumme(a(K4))
    elif op == "sum KZ":
        r = G.mSumme(a([K1[0], K1[0]]))
    elif op == "m0 K1":
        r = G.single_m(0, a(K1))
    elif op == "m2 K1":
        r = G.single_m(2, a(K1))
    elif op == "m1 K1":
        r = G.single_m(1, a(K1))
    elif op == "m1 K2":
        r = G.single_m(1, a(K2))
    elif op == "m1 K3":
        r = G.single_m(1, a(K3))
    elif op == "m1 K4":
        r = G.single_m(1, a(K4))
    elif op == "static":
        r = G.mSumme_k0()
    elif op == "static m1":
        r = G.single_m_k0(1)
    elif op == "sum 0K1":
        r = G.single_m(1, a([0.0] + K1))
    elif op == "one K1":
        r = G.mSum_oneRoundtrip(a(K1))
    elif op == "trips K1":
        r = G.mSum_roundtrips(a(K1), order=2)
    elif op == "blocks K1":
        r = G.blockmatrices(1, a(K1))
    elif op == "force K1":
        r = G.mSum_trace_dot(a(K1))
    elif op == "chan K1":
        r = list(G.blockmatrices_channels(1, a(K1)))
    elif op == "trips 3":
        r = G.mSum_roundtrips(a(K3), order=3)
    elif op in NEAR:
        r = G.single_m(1, a(NEAR[op]))
    elif op in LADDER:
        r = G.single_m(int(op[1]), a([0.4, 1.9] if op.endswith("L1") else [0.9, 1.4]))
    elif op == "bufsum":
        r = G.mSumme(buf)
    return r


FOPS = ["m1 K1", "m1 K2", "sum K1", "sum K2", "m1 K3", "static", "sum 0K1", "one K1", "blocks K1"]
_FRESH = {}


def outcome(fn):
    try:
        r = fn()
        obs = np.concatenate([np.asarray(x, dtype=float).ravel() for x in (r if isinstance(r, list) else [r])])
        return "value", obs, r
    except Exception as e:
        return "raises " + type(e).__name__, None, None


def prepare(tier):
    """observations on fresh objects, each made in a process that did nothing else"""
    for conf in list(CONF) + ["coated"]:
        for op in LADDER if conf.startswith("four") else OPS + ["chan K1", "trips 3", "m1 K1"] + list(NEAR):
            if op in ("flip", "scribble"):
                continue
            for flipped in ((False, True) if op == "bufsum" else (None,)):
                buf = np.array(K2 if flipped else K1)
                _FRESH[conf, op, flipped] = pristine(lambda: outcome(lambda: do(make(conf, {}), op, buf))[:2])
    for name in KIN:
        for op in sorted({o for p in KINOPS for o in p}):
            _FRESH["kin", name, op] = pristine(lambda: outcome(lambda: do(kin(name), op, None))[:2])


def fresh(conf, op, flipped):
    return _FRESH[conf, op, bool(flipped) if op == "bufsum" else None]


def summary(G):
    out = []
    for k, v in sorted(vars(G).items()):
        if isinstance(v, np.ndarray):
            out.append((k, v.shape, digest(["%.9e" % x for x in v.ravel()])))
        elif isinstance(v, (int, float, str, type(None))):
            out.append((k, v))
        elif isinstance(v, dict):
            out.append((k, sorted((str(a), str(b)) for a, b in v.items())))
        elif isinstance(v, list):
            out.append((k, len(v)))
    return out


def cases(tier):
    out = []
    small = ["sum K1", "sum K2", "m2 K1", "m1 K3", "static", "force K1", "one K1", "bufsum", "flip", "scribble"]
    for conf in ("ext", "int", "layer", "coated", "trace"):
        depth = 3 if tier == "quick" or conf in ("coated", "trace") else 4
        ops = small + ["trips K1", "sum 0K1"] if tier == "quick" and conf in ("coated", "trace") else OPS
        for p in itertools.product(ops, repeat=2):
            out.append({"id": "%s: %s; %s" % (conf, p[0], p[1]), "conf": [conf], "prefix": [[0, p[0]], [0, p[1]]],
                        "depth": depth, "ops": ops})
    near = list(NEAR) + ["m1 K1", "m1 K4", "m1 K3"]
    near = [o for o in near if o != "m1 K1"]
    for conf in ("ext", "int", "layer", "coated", "trace"):
        for p in itertools.product(near, repeat=2):
            out.append({"id": "near %s: %s; %s" % (conf, p[0], p[1]), "conf": [conf], "prefix": [[0, p[0]], [0, p[1]]], "depth": 3, "ops": near})
    for conf in ("four", "four in"):
        for p in itertools.product(LADDER, repeat=2):
            out.append({"id": "ladder %s: %s; %s" % (conf, p[0], p[1]), "conf": [conf], "prefix": [[0, p[0]], [0, p[1]]],
                        "depth": 4 if conf == "four" or tier == "thorough" else 3, "ops": LADDER})
    four = ["sum K1", "m1 K2", "m1 K3", "static", "sum 0K1", "one K1", "trips 3", "blocks K1", "chan K1", "bufsum", "flip", "scribble"]
    if tier == "quick":
        for conf in ("ext", "int", "coated"):
            ops = four if conf != "coated" else [o for o in four if o not in ("chan K1", "trips 3", "blocks K1", "sum 0K1")]
            for p in itertools.product(ops, repeat=2):
                out.append({"id": "four %s: %s; %s" % (conf, p[0], p[1]), "conf": [conf], "prefix": [[0, p[0]], [0, p[1]]], "depth": 4, "ops": ops})
    for conf in ("ext", "int", "layer", "coated", "trace"):
        for a, b in itertools.product(["none"] + FOPS, FOPS):
            for kind in faults.KINDS:
                if tier == "quick" and a not in {"error": FOPS + ["none"], "attribute": ["none", "static", "sum 0K1"]}.get(kind, ["m1 K1"]):
                    continue
                out.append({"id": "fault %s: %s; %s with %s" % (conf, a, b, kind), "conf": [conf], "fault": kind, "a": a, "b": b})
    for how in HOW:
        for a, b in itertools.permutations(KIN, 2):
            out.append({"id": "kin %s: %s, %s" % (how, a, b), "kin": [a, b], "how": how})
    if tier == "quick":
        small = [o for o in small if o not in ("one K1", "sum K2", "bufsum")]
    for pair in (["ext", "other"], ["ext", "ext"], ["int", "layer"]):
        for p in itertools.product([[i, o] for i in (0, 1) for o in small], repeat=2):
            out.append({"id": "%s: %s" % ("+".join(pair), p), "conf": pair, "prefix": [list(x) for x in p], "depth": 3,
                        "ops": small})
    if tier == "thorough":
        for conf in ("ext", "int", "coated", "trace"):
            for p in itertools.product(small, repeat=2):
                out.append({"id": "deep %s: %s; %s" % (conf, p[0], p[1]), "conf": [conf],
                            "prefix": [[0, p[0]], [0, p[1]]], "depth": 5, "ops": small})
    return out


def execute(case, seq, ctx):
    pool = {}
    objs = [make(c, pool) for c in case["conf"]]
    buf = np.array(K1)
    flipped = False
    last = None
    for n, (i, op) in enumerate(seq):
        if op == "flip":
            flipped = not flipped
            buf[:] = K2 if flipped else K1
            continue
        if op == "scribble":
            for x in (last if isinstance(last, list) else [last]):
                if isinstance(x, np.ndarray) and x.flags.writeable:
                    x[...] = 77.7
            continue
        ctx.op()
        kind, obs, last = outcome(lambda: do(objs[i], op, buf))
        wkind, want = fresh(case["conf"][i], op, flipped)
        hist = "; ".join(("%d:" % a if len(objs) > 1 else "") + b for a, b in seq[:n + 1])
        if not ctx.check(kind == wkind, "history", "after [%s]: %s, a fresh object: %s" % (hist, kind, wkind)):
            return
        if want is not None:
            if obs.shape != want.shape or not np.all(np.abs(obs - want) <= 1e-10 * np.abs(want) + 1e-15):
                ctx.check(False, "history", "after [%s]: %s, a fresh object gives %s"
                          % (hist, obs[:4].tolist(), want[:4].tolist()))
                return
            ctx.points += want.size
        ctx.outcome(op, wkind, None if want is None else ["%.9e" % v for v in want[:4]])
    ctx.state([summary(o) for o in objs], flipped)


def same(ctx, conf, op, got, hist):
    kind, obs, _ = got
    wkind, want = fresh(conf, op, False)
    if not ctx.check(kind == wkind, "history", "after [%s]: %s, a fresh object: %s" % (hist, kind, wkind)):
        return False
    if want is not None:
        if obs.shape != want.shape or not np.all(np.abs(obs - want) <= 1e-10 * np.abs(want) + 1e-15):
            return ctx.check(False, "history", "after [%s]: %s, a fresh object gives %s" % (hist, obs[:4].tolist(), want[:4].tolist()))
        ctx.points += want.size
    ctx.outcome(op, wkind)
    return True


def run_fault(case, ctx):
    """first operation, one interrupted at its n-th use of a material for every n, then each operation"""
    conf, (a, b) = case["conf"][0], (case["a"], case["b"])
    buf = np.array(K1)
    n = 0
    while n < 2000:
        n += 1
        for c in FOPS:
            G = make(conf, {})
            if a != "none":
                ctx.op()
                if not same(ctx, conf, a, outcome(lambda: do(G, a, buf)), a):
                    return
            ctx.op(2)
            with faults.at(n, case["fault"]) as st:
                try:
                    got = outcome(lambda: do(G, b, buf))
                except KeyboardInterrupt:
                    got = ("raises KeyboardInterrupt", None, None)
            hist = "%s; %s interrupted at evaluation %d of a material" % (a, b, n)
            if not st["hit"]:
                return
            # a caught exception is fine as long as the answer is right
            if got[0] == "value" and not same(ctx, conf, b, got, hist):
                return
            if not same(ctx, conf, c, outcome(lambda: do(G, c, buf)), hist + "; " + c):
                return
            ctx.state(summary(G))
    ctx.check(False, "fault", "no end of evaluations")


def run_kin(case, ctx):
    """two geometries that differ in one respect, alive together or one after the other"""
    a, b = case["kin"]

    def ask(G, name, op, hist):
        ctx.op()
        kind, obs, _ = outcome(lambda: do(G, op, None))
        wkind, want = _FRESH["kin", name, op]
        if not ctx.check(kind == wkind, "history", "%s: %s, a fresh object: %s" % (hist, kind, wkind)):
            return False
        if want is not None and (obs.shape != want.shape or not np.all(np.abs(obs - want) <= 1e-10 * np.abs(want) + 1e-15)):
            return ctx.check(False, "history", "%s: %s, a fresh object gives %s" % (hist, obs[:4].tolist(), want[:4].tolist()))
        ctx.points += 0 if want is None else want.size
        ctx.outcome(name, op, wkind)
        return True

    for p, q in KINOPS:
        G = kin(a)
        hist = "%s of [%s]" % (p, a)
        if not ask(G, a, p, hist):
            return
        hist += "; %s of [%s] %s" % (q, b, case["how"])
        if case["how"] == HOW[0]:
            H = kin(b)
            if not ask(H, b, q, hist) or not ask(G, a, p, hist + "; %s of [%s]" % (p, a)):
                return
        else:
            del G
            gc.collect()
            H = kin(b)
            if not ask(H, b, q, hist):
                return
        ctx.state(case["how"], a, b, p, q)


def run(case, ctx):
    if "kin" in case:
        return run_kin(case, ctx)
    if "fault" in case:
        return run_fault(case, ctx)
    alpha = [[i, o] for i in range(len(case["conf"])) for o in case["ops"]]
    rest = case["depth"] - len(case["prefix"])
    for tail in itertools.product(alpha, repeat=rest):
        execute(case, [tuple(x) for x in case["prefix"]] + [tuple(x) for x in tail], ctx)
        if ctx.fails:
            return

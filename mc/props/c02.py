"""Arrays of wavenumbers are evaluated element by element."""
import itertools
import numpy as np
import bessel_sk
import geometry
import scattering
import thermodynamics
import translation
from stratified_sphere_scattering import StratifiedMieScattering
from ..common import mat, build, geo

ID = "C02"
TIMEOUT = 250
ALPHA = [1e-9, 4e-4, 1.7e-3, 0.3, 4.0, 60.0, 320.0]
RULE = ("one case per function and first element: all sequences over the alphabet of wavenumbers (any order, "
        "repetitions) plus all rotations of long arrays; non-trivial: sequences of at least two different elements")
BOUNDS = {"quick": "7 wavenumbers, all sequences up to length 3 (length 4 for the cheap functions), arrays of 56 and 131 elements in "
                   "7 rotations and reversed, every length up to 70 (40) and up to 1025; 28 vectorised functions; integers, strided, reversed and read-only views",
          "thorough": "all sequences up to length 4 (5 for the cheap ones), 14 rotations"}
ASSUMPTIONS = ["the same function on a one-element array is the oracle; absolute values are the business of C01-C09",
               "sums over m stop at the requested precision of the batch: there 1e-9 of the largest element is allowed"]


def _geo(kind):
    if kind == "ext":
        return geo(1.0, 1.4, 3.0, "drude", "ps", "eth", 3, 4)
    if kind == "int":
        return geo(0.5, 2.0, 0.9, "mag", "drude", "vac", 3, 4)
    if kind == "strat":
        return geo([0.6, 1.0], [0.5, 0.7, 1.4], 3.0, ["drude", "ps", "eth"], ["ps", "mag", "drude", "eth"], "eth", 2, 3)


def G(kind, **kw):
    kw.setdefault("precision", 1e-13)
    return build(_geo(kind), **kw)


def coated():
    return geometry.CoatedSphereSphere(0.5, 1.0, mat("drude"), mat("ps"), 0.9, 1.4, mat("mag"), mat("drude"), 3.0,
                                       mat("eth"), 2, 3)


def ax1(f):
    """move the wavenumber axis of a list of arrays to the front and flatten the rest"""
    def g(k):
        a = f(k)
        a = np.asarray(a, dtype=float)
        return np.moveaxis(a, 1, 0).reshape(len(k), -1)
    return g


def ax0(f):
    def g(k):
        r = f(k)
        if isinstance(r, (list, tuple)):
            return np.concatenate([np.asarray(a, dtype=float).reshape(len(k), -1) for a in r], axis=1)
        return np.asarray(r, dtype=float).reshape(len(k), -1)
    return g


# name -> (function, kind): kind "cheap" gets longer sequences, "sum" the batch tolerance
FUN = {
    "epsilon": (ax0(lambda k: mat("eth").epsilon(k)), "cheap"),
    "epsilon smith": (ax0(lambda k: mat("smith").epsilon(k)), "cheap"),
    "mu": (ax0(lambda k: mat("mag").mu(k)), "cheap"),
    "lnknu": (ax0(lambda k: bessel_sk.lnknu(k, 5)), "cheap"),
    "lniknu": (ax0(lambda k: bessel_sk.lniknu(k, 4)), "cheap"),
    "lniknu0": (ax0(lambda k: bessel_sk.lniknu(k, 0)), "cheap"),
    "lniknu1": (ax0(lambda k: bessel_sk.lniknu(k, 1)), "cheap"),
    "trans_bessels": (ax0(lambda k: bessel_sk.trans_bessels(k, 3, 0)), ""),
    "mie_bessels": (ax0(lambda k: bessel_sk.mie_bessels(k, 1, 3)), ""),
    "i_fraction": (ax1(lambda k: bessel_sk.i_fraction(k, np.array([0.5, 2.5]))), ""),
    "mie": (ax1(lambda k: scattering.scattering(mat("drude"), mat("eth")).mie(k, 1, 3, 1.0)), "cheap"),
    "mie pec": (ax1(lambda k: scattering.scattering(mat("pec"), mat("mag")).mie(k, 1, 3, 0.7)), ""),
    "mie_internal": (ax1(lambda k: scattering.scattering(mat("eth"), mat("mag")).mie_internal(k, 1, 3, 2.0)), "cheap"),
    "mie_internal pec": (ax1(lambda k: scattering.scattering(mat("eth"), mat("pec")).mie_internal(k, 1, 3, 2.0)), ""),
    "coated": (ax1(lambda k: scattering.coated_miescattering(mat("drude"), mat("mag"), mat("vac")).mie_coated(k, 1, 3, .5, 1.)), ""),
    "stratified": (ax1(lambda k: StratifiedMieScattering([mat("ps"), mat("drude"), mat("mag"), mat("eth")],
                                                         [.3, .5, 1.]).mie_stratified(k, 1, 3)), ""),
    "trans ext": (ax0(lambda k: translation.translation(3, 4, 1, mat("eth"), 2.5, k, 1).trans_ab()), ""),
    "trans int": (ax0(lambda k: translation.translation(3, 4, 1, mat("mag"), 0.8, k, 0).trans_ab()), ""),
    "blocks": (ax0(lambda k: G("ext").blockmatrices(1, k)), ""),
    "single_m": (ax0(lambda k: G("ext").single_m(2, k)), ""),
    "single_m 0 int": (ax0(lambda k: G("int").single_m(0, k)), ""),
    "mSumme ext": (ax0(lambda k: G("ext").mSumme(k)), "sum"),
    "mSumme int": (ax0(lambda k: G("int").mSumme(k)), "sum"),
    "mSumme strat": (ax0(lambda k: G("strat").mSumme(k)), "sum"),
    "mSumme coated": (ax0(lambda k: coated().mSumme(k)), "sum4"),
    "oneRoundtrip": (ax0(lambda k: G("ext").mSum_oneRoundtrip(k)), ""),
    "roundtrips 3": (ax0(lambda k: G("ext").mSum_roundtrips(k, order=3)), ""),
    "F_alle": (ax0(lambda k: thermodynamics.finiteT(0.5, 3, 1.0, G("ext")).F_alle(k)), "sum"),
}
SLOW = ("trans", "blocks", "single", "mSumme", "one", "round", "F_")
# static first element
ZERO = ("single_m", "single_m 0 int", "mSumme ext", "mSumme int", "F_alle")
FIN = [1e-9, 4e-4, 0.3, 4.0, 60.0]


# companions of a wavenumber in a sum over m with the usual precision: their terms range from
# larger than the first one's to far below rounding
EARLY = [1e-10, 1e-3, 0.05, 0.3, 1.0, 3.0, 8.0] + [12.0 + 4.0 * i for i in range(38)] + [200.0, 320.0]
EGEO = {"ext": lambda p: build(geo(1.0, 1.0, 2.2, "drude", "drude", "vac", 10, 10), precision=p),
        "ext far": lambda p: build(geo(1.0, 1.0, 3.0, "drude", "ps", "vac", 6, 6), precision=p),
        "int": lambda p: build(geo(1.0, 2.0, 0.7, "drude", "drude", "vac", 8, 12), precision=p)}


def cases(tier):
    out = []
    for g in EGEO:
        for p in (1e-2, 1e-4, 1e-6):
            for a in (1e-8, 0.02, 0.5, 2.0):
                out.append({"id": "early %s precision=%g first=%g" % (g, p, a), "early": g, "p": p, "first": a})
    for n in FUN:
        alpha = FIN if n.startswith(SLOW) else ALPHA
        depth = (3 if n.startswith(("mS", "F_", "single", "bl", "one", "ro")) else 4 if FUN[n][1] == "cheap" else 3)
        if tier == "thorough":
            depth += 1
        for a in alpha:
            out.append({"id": "%s first=%g" % (n, a), "fun": n, "first": a, "depth": depth, "alpha": alpha})
        for rot in range(0, 7 if tier == "quick" else 14):
            out.append({"id": "%s rotation %d" % (n, rot), "fun": n, "rot": rot})
        for lo in LENGTHS[:3] if n.startswith(SLOW) else LENGTHS:
            out.append({"id": "%s lengths %d..%d" % (n, lo[0], lo[-1]), "fun": n, "len": lo})
        out.append({"id": "%s layout" % n, "fun": n, "layout": True, "n": 3 if n.startswith(("mS", "F_")) and tier == "quick" else 4})
        if n in ZERO:
            out.append({"id": "%s zero first" % n, "fun": n, "zero": True, "alpha": FIN})
    return out


LENGTHS = [list(range(1, 13)), list(range(13, 25)), list(range(25, 41)), list(range(41, 71)), [95, 99, 100, 101, 127, 128, 129, 200],
           [255, 256, 257, 300, 500, 512, 513], [999, 1000, 1001, 1024, 1025]]


def single(fn, cache, k):
    if k not in cache:
        cache[k] = fn(np.array([k]))[0]
    return cache[k]


def early(case, ctx):
    """a sum over m ends within the requested precision of the largest term of the array"""
    full = {k: EGEO[case["early"]](1e-15).mSumme(np.array([k]))[0] for k in set(EARLY + [case["first"]])}
    for k in EARLY:
        for seq in ((case["first"], k), (k, case["first"]), (k, case["first"], k)):
            ctx.op()
            ctx.state(case["id"], seq)
            got = EGEO[case["early"]](case["p"]).mSumme(np.array(seq))
            want = np.array([full[x] for x in seq])
            ctx.close(got, want, "early", 1e-12, case["p"] * np.abs(want).max(), "mSumme%s" % (seq,))


def run(case, ctx):
    if "early" in case:
        return early(case, ctx)
    fn, kind = FUN[case["fun"]]
    cache = {}

    def judge(seq, key):
        ctx.op()
        got = fn(np.array(seq))
        want = np.array([single(fn, cache, k) for k in seq])
        at = 1e-9 * np.ones(want.shape)
        if case["fun"].startswith(("lnk", "lni", "eps", "mu", "i_f")):
            at = 1e-11
        if kind.startswith("sum"):
            at = np.abs(want).max() * (1e-9 if kind == "sum" else 2e-5) + 1e-12
        elif case["fun"].startswith(("single", "one", "round")):
            at = 1e-13
        ctx.close(got, want, key, 1e-9 if not kind == "sum4" else 2e-5, at, "%s%s" % (case["fun"], list(seq)))
    if case.get("layout"):
        ints = [1, 2, 3, 7, 60] if case["fun"].startswith(SLOW) else [1, 2, 7, 60, 150, 320]
        for n in range(1, case["n"]):
            for seq in itertools.product(ints, repeat=n):
                want = np.array([single(fn, cache, float(k)) for k in seq])
                fl = np.array(seq, dtype=float)
                frozen = fl.copy()
                frozen.flags.writeable = False
                for how, k in (("integers", np.array(seq)), ("short integers", np.array(seq, dtype=np.int32)), ("every second", np.repeat(fl, 2)[::2]),
                               ("backwards", fl[::-1].copy()[::-1]), ("column", np.stack([fl, fl + 1], axis=1)[:, 0]), ("frozen", frozen)):
                    if n == 3 and how not in ("integers", "frozen"):
                        continue
                    ctx.op()
                    ctx.state(case["fun"], how, seq)
                    at = np.abs(want).max() * (1e-9 if kind == "sum" else 2e-5) + 1e-12 if kind.startswith("sum") else 1e-9
                    ctx.close(fn(k), want, how, 1e-9 if kind != "sum4" else 2e-5, at, "%s%s stored as %s" % (case["fun"], list(seq), how))
        return
    if "len" in case:
        lo, hi = (-6, 2) if case["fun"].startswith(SLOW) else (-6, 3)
        grid = list(np.logspace(lo, hi, 97))
        for n in case["len"]:
            ctx.state(case["fun"], n)
            judge([grid[(37 * i + n) % 97] for i in range(n)], "length")
        return
    if "rot" in case:
        lo, hi = (-6, 2) if case["fun"].startswith(SLOW) else (-6, 3)
        for n in (56, 131):
            if n == 131 and case["fun"].startswith(("mS", "F_", "bl")) and case["rot"] % 3:
                continue
            base = list(np.logspace(lo, hi, n))
            r = (case["rot"] * n) // 7 % n
            seq = base[r:] + base[:r]
            ctx.state(case["fun"], n, case["rot"])
            judge(seq, "long")
            judge(seq[::-1], "long reversed")
        return
    if case.get("zero"):
        z = fn(np.array([0.0]))[0]
        for n in range(1, 3):
            for seq in itertools.product(case["alpha"], repeat=n):
                ctx.op()
                ctx.state(case["fun"], "0", seq)
                got = fn(np.array((0.0,) + seq))
                want = np.array([z] + [single(fn, cache, k) for k in seq])
                ctx.close(got, want, "zero", 1e-9, 1e-9 * np.abs(want).max() + 1e-13,
                          "%s%s" % (case["fun"], [0.0] + list(seq)))
        return
    for n in range(1, case["depth"]):
        for rest in itertools.product(case["alpha"], repeat=n):
            seq = [case["first"]] + list(rest)
            ctx.state(case["fun"], seq)
            judge(seq, "sequence")

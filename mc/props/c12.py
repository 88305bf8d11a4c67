"""Matsubara sums, slices, entropy, zero-temperature energy."""
import itertools
import math
import numpy as np
import geometry
import thermodynamics as td
from .. import ref
from ..common import build, geo, rgeo, mat, rmat

ID = "C12"
TIMEOUT = 300
RULE = ("one case per slicing, per (class, temperature step, number of terms, number of temperatures) on a geometry whose terms "
        "are a known function of the wavenumber, and per real geometry compared with the arbitrary-precision model; "
        "non-trivial: more than one slice, temperature or term")
BOUNDS = {"quick": "all 0 <= first <= last <= 36 with slice lengths 1..38 (26714 slicings); 9 temperature steps (1e-8 to 30) x 53 numbers of terms "
                   "(1..20, around multiples of the slice length, up to 513) x 12 numbers of temperatures (highest temperature a multiple of the lowest or in between) x 4 set-ups; 24 real geometries; zero-temperature energy of 34 real geometries with 5 ranges",
          "thorough": "slicings up to 64, temperatures 1 to 20, 272 numbers of terms up to 1025"}
ASSUMPTIONS = ["the synthetic geometry is a subclass of SphereSphere that overrides the evaluation of single terms",
               "entropy is compared with the central difference quotient of the free energy (one-sided at the ends)"]

STATIC = -0.7310


def g(k):
    """term of the synthetic geometry; differs from STATIC at k -> 0"""
    k = np.asarray(k, dtype=float)
    return -np.exp(-k) * (1.0 + 0.3 * np.sin(3 * k)) - 0.11


def g0(k):
    return -np.exp(-k) * (1.0 + 0.3 * np.sin(3 * np.asarray(k, dtype=float)))


class Synthetic(geometry.SphereSphere):
    """two spheres whose terms are known"""
    offset = 0.11

    def mSumme(self, matsubaras):
        k = np.asarray(matsubaras, dtype=float)
        self.asked.extend(k.tolist())
        return np.where(k == 0, STATIC, g0(k) - self.offset)

    def mSumme_k0(self):
        self.asked.append(0.0)
        return np.array([[STATIC]])

    def mSum_oneRoundtrip(self, matsubaras, mmax="automatic"):
        k = np.asarray(matsubaras, dtype=float)
        return 2.0 * np.where(k == 0, STATIC, g0(k) - self.offset)

    def single_m(self, m, matsubaras):
        raise AssertionError("not part of the synthetic geometry")


def synthetic(layered=False, offset=0.11):
    m = mat("vac")
    G = Synthetic([0.5, 1.0] if layered else 1.0, 1.0, 3.0, [m, m, m] if layered else m, m, m, 2, 2, 2)
    G.asked = []
    G.offset = offset
    return G


SETUPS = ["analytic", "numerical", "layered", "one"]


def setup(kind, dT, nmax, Tmax):
    """object, zeroth term, function of the other terms"""
    G = synthetic(kind == "layered")
    zero = STATIC if kind == "analytic" else float(g(1e-10))
    if kind == "one":
        return td.oneRoundtrip(dT, nmax, Tmax, G), 2 * zero, lambda k: 2 * g(k)
    if kind == "numerical":
        return td.finiteT(dT, nmax, Tmax, G, analytic_n0=False), zero, g
    return td.finiteT(dT, nmax, Tmax, G), zero, g


REAL = {
    "pec": geo(1.0, 1.0, 2.6, "pec", "pec", "vac", 3, 3),
    "drude ps eth": geo(1.0, 1.7, 3.3, "drude", "ps", "eth", 3, 4),
    "plasma mag": geo(1.5, 0.8, 3.0, "plasma", "mag", "vac", 3, 5),
    "inside": geo(0.5, 2.0, 0.9, "drude", "ps", "eth", 3, 5),
    "inside pec": geo(0.6, 1.8, 0.7, "pec", "drude", "vac", 2, 4),
    "far": geo(1.0, 1.0, 9.0, "drude", "drude", "vac", 1, 1),
    "layers": geo([0.6, 1.0], [0.5, 0.7, 1.4], 3.0, ["drude", "ps", "eth"], ["ps", "mag", "eth", "eth"], "eth", 2, 3),
    "layers first": geo([0.6, 1.0], 1.4, 3.0, ["drude", "ps", "vac"], "drude", "vac", 2, 3),
    "layers second": geo(1.4, [0.6, 1.0], 3.0, "drude", ["ps", "drude", "vac"], "vac", 3, 3),
}
MORE = {
    "%s %s %s %s" % (a, b, c, w): geo(*(w == "out" and (1.0, 1.3, 2.9) or (0.7, 2.1, 1.0)), a, b, c, 3, 4)
    for a, b, c in (("ps", "drude", "vac"), ("mag", "plasma01", "eth"), ("smith", "dia", "vac"), ("const4", "pec", "const9"),
                    ("plasma2", "drudemag", "vac"), ("drude_ps", "const9", "const4"), ("magvac", "smith", "eth"))
    for w in ("out", "in")}


def cases(tier):
    th = tier == "thorough"
    N = 64 if th else 36
    out = []
    for a in range(N + 1):
        for b in range(a, N + 1):
            out.append({"id": "slices %d..%d" % (a, b), "part": "slices", "a": a, "b": b, "steps": N + 2})
    out.append({"id": "bad slices", "part": "badslices"})
    nmaxs = list(range(1, 21)) + [25, 30, 32, 33, 40, 48, 49, 50, 51, 52, 64, 65, 99, 100, 101, 102, 128, 149, 150, 151, 152, 199, 200, 201,
                                  249, 250, 251, 256, 257, 300, 401, 512, 513]
    if th:
        nmaxs = list(range(1, 260)) + [300, 399, 400, 401, 512, 513, 599, 600, 601, 999, 1000, 1001, 1025]
    for kind in SETUPS:
        for dT in (0.1, 0.3, 0.7, 1.0, 1.7, 1, 2, 5e-4, 1e-5, 1e-8, 30.0):
            for n in nmaxs[::3] if isinstance(dT, int) else nmaxs[::5] if dT < 1e-2 or dT > 9 else nmaxs:
                out.append({"id": "sum %s dT=%s nmax=%d" % (kind, dT, n), "part": "sum", "kind": kind, "dT": dT, "nmax": n,
                            "steps": list(range(1, 21)) if th else [1, 2, 3, 4, 5, 6, 7, 8, 12, 19, 20, 21]})
    for n in (1, 2, 5):
        for ab in ([0, "inf"], [0, None], [0.5, 2.0], [0, 1.0], [0.3, None]):
            out.append({"id": "e0 %s nmax=%d" % (ab, n), "part": "e0", "ab": ab, "nmax": n, "dT": 0.4})
    for name in REAL:
        for sc in (1.0,) if isinstance(REAL[name]["r1"], list) or isinstance(REAL[name]["r2"], list) else (0.02, 1.0, 30.0):
            out.append({"id": "integral %s x%g" % (name, sc), "part": "integral", "geo": REAL[name], "scale": sc})
    for sc in (0.02, 1.0, 30.0):
        for name, gg in (("small and large", geo(0.3, 4.0, 4.5, "pec", "pec", "vac", 2, 5)), ("close", geo(1.0, 1.0, 2.15, "drude", "plasma", "vac", 4, 4)),
                         ("large and small", geo(4.0, 0.3, 4.5, "drude", "pec", "vac", 5, 5)), ("small inside", geo(0.3, 4.0, 3.5, "drude", "pec", "vac", 2, 5))):
            out.append({"id": "integral %s x%g" % (name, sc), "part": "integral", "geo": gg, "scale": sc})
    for name in REAL:
        out.append({"id": "real " + name, "part": "real", "name": name, "geo": REAL[name]})
    out.append({"id": "real coated", "part": "coated"})
    for name in MORE:
        out.append({"id": "real " + name, "part": "real", "name": name, "geo": MORE[name]})
    out.append({"id": "force nmax=2", "part": "force", "nmax": 2})
    out.append({"id": "force nmax=60", "part": "force", "nmax": 60})
    for c in out:
        if c["part"] == "integral":
            c["heavy"] = 1
    return out


def val(n):
    return (n * 7919 % 1013) + n / 1024.0


def run_slices(case, ctx):
    a, b = case["a"], case["b"]
    for step in range(1, case["steps"] + 1):
        seen = []

        def func(x):
            seen.extend(int(v) for v in x)
            return val(np.asarray(x))
        ctx.op()
        r = td.slicewise_eval(func, a, b, step)
        ctx.close(r, [val(n) for n in range(a, b + 1)], "values %d" % step, 0, 0, "slice length %d" % step)
        ctx.check(sorted(seen) == list(range(a, b + 1)), "once %d" % step,
                  lambda: "indices evaluated with slice length %d: %s" % (step, seen))
    ctx.state(a, b)


def gradient(F, h):
    out = np.empty(len(F))
    out[0], out[-1] = (F[1] - F[0]) / h, (F[-1] - F[-2]) / h
    out[1:-1] = (F[2:] - F[:-2]) / (2 * h)
    return out


def run_sum(case, ctx):
    kind, dT, nmax = case["kind"], case["dT"], case["nmax"]
    _, zero, fn = setup(kind, dT, nmax, dT)
    terms = np.append(0.5 * zero, fn(dT * np.arange(1, nmax + 1)))
    for steps in case["steps"]:
        Tmax = {0: steps * dT, 1: float("%.9g" % (steps * dT)), 2: sum([dT] * steps)}[steps % 3]
        f, _, _ = setup(kind, dT, nmax, Tmax)
        want = np.array([i * dT * math.fsum(terms[::i]) for i in range(1, steps + 1)])
        ctx.op(3)
        ctx.close(f.free_energy(), want, "free energy %d" % steps, 1e-9, 1e-12, "free energy, %d temperatures" % steps)
        if steps > 1:
            ctx.close(f.entropy(), -gradient(want, dT), "entropy %d" % steps, 1e-7, 1e-9, "entropy, %d temperatures" % steps)
        ctx.close(f.free_energy(), want, "repeated %d" % steps, 1e-9, 1e-12, "repeated free energy")
        # a highest temperature between two multiples of the lowest: the temperatures stay multiples
        for frac in (0.3, 0.45, 0.6, 0.9):
            ctx.op(2)
            f, _, _ = setup(kind, dT, nmax, (steps + frac) * dT)
            F = np.asarray(f.free_energy())
            if ctx.check(F.shape == (steps,) or (frac > 0.5 and F.shape == (steps + 1,)), "temperatures %d" % steps,
                         lambda: "%d temperatures up to %g steps" % (F.size, steps + frac)):
                want = np.array([i * dT * math.fsum(terms[::i]) for i in range(1, len(F) + 1)])
                ctx.close(F, want, "between %d" % steps, 1e-9, 1e-12, "free energy up to %g steps" % (steps + frac))
                if len(F) > 1:
                    ctx.close(f.entropy(), -gradient(want, dT), "entropy between %d" % steps, 1e-7, 1e-9, "entropy up to %g steps" % (steps + frac))
    f, _, _ = setup(kind, dT, nmax, dT)
    for nmin in (0, 1, min(2, nmax)):
        for step in (1, 2, 3, 7, 50, 200):
            if step == 1 and nmax > 9:
                continue
            ctx.op()
            ctx.close(f.get_f_matsubaras(nmin, step), terms[nmin:], "terms %d %d" % (nmin, step), 1e-9, 1e-12,
                      "Matsubara terms from %d in slices of %d" % (nmin, step))
        ctx.close(f.get_f_matsubaras(nmin), terms[nmin:], "terms %d" % nmin, 1e-9, 1e-12, "Matsubara terms from %d" % nmin)
    for ks in ([0.3], [0.0, 0.3], [0.0, 0.3, 0.6], [2.0, 0.1], [0.0], [0.6, 0.3, 0.6], [1e-3], [1e-6, 0.3], [1e-12], [0.0, 1e-9], [50.0, 1e-4]):
        ctx.op()
        r = f.F_alle(np.array(ks))
        ctx.close(np.ravel(r), [0.5 * zero if k == 0 else float(fn(k)) for k in ks], "F_alle %s" % ks, 1e-9, 1e-12,
                  "terms at wavenumbers %s" % ks)
    ctx.state(kind, dT, nmax)


def run_e0(case, ctx):
    a, b = case["ab"]
    f = td.finiteT(case["dT"], case["nmax"], 1.2, synthetic(offset=0.0))
    ctx.op()
    r = f.e0(a, np.inf if b == "inf" else b)
    hi = 60.0 if b == "inf" else case["dT"] * case["nmax"] if b is None else b

    def prim(k):      # integral of g0
        return math.exp(-k) + 0.3 * math.exp(-k) * (math.sin(3 * k) + 3 * math.cos(3 * k)) / 10.0
    want = prim(hi) - prim(a)
    r = np.asarray(r, dtype=float)
    if ctx.check(r.shape == (1, 2), "shape", "e0 has shape %s" % (r.shape,)):
        ctx.close(r[0, 0], want, "e0", 1e-6, 1e-8, "integral from %s to %s" % (a, b))
        ctx.check(0 <= r[0, 1] < 1e-5, "error", "error estimate %r" % r[0, 1])
    ctx.state(case["id"])


def run_integral(case, ctx):
    """zero-temperature energy of real geometries against Gauss-Legendre quadrature of their terms"""
    sc, gg = case["scale"], dict(case["geo"])
    for n in ("r1", "r2"):
        gg[n] = [r * sc for r in gg[n]] if isinstance(gg[n], list) else gg[n] * sc
    gg["L"] *= sc
    r1, r2 = [r[-1] if isinstance(r, list) else r for r in (gg["r1"], gg["r2"])]
    gap = gg["L"] - r1 - r2 if gg["L"] > r1 + r2 else r2 - r1 - gg["L"]
    G = build(gg, precision=1e-12)
    x, w = np.polynomial.legendre.leggauss(24)
    # panels on a geometric grid, from deep below to far above the inverse of all lengths
    edges = np.append(0.0, np.logspace(-6, np.log10(22.0), 26)) / gap

    def integral(lo, hi):
        total, e = [], edges[(edges > lo) & (edges < hi)]
        e = np.append(np.append(lo, e), min(hi, edges[-1]))
        for p, q in zip(e[:-1], e[1:]):
            total.append(0.5 * (q - p) * math.fsum(w * G.mSumme(0.5 * (p + q) + 0.5 * (q - p) * x)))
        return math.fsum(total)
    for tag, make, args, lo, hi in (("default", td.finiteT, (), 0.0, np.inf), ("upper end", td.finiteT, (0.0, 1.3 / gap), 0.0, 1.3 / gap),
                                    ("lower end", td.finiteT, (0.2 / gap,), 0.2 / gap, np.inf), ("to the last term", td.finiteT, (0, None), 0.0, 1.5 / gap),
                                    ("single round trip object", td.oneRoundtrip, (), 0.0, np.inf)):
        ctx.op()
        got = np.asarray(make(0.5 / gap, 3, 1.0 / gap, build(gg, precision=1e-12)).e0(*args), dtype=float)
        if ctx.check(got.shape == (1, 2), "shape", "e0 has shape %s" % (got.shape,)):
            ctx.close(got[0, 0], integral(lo, hi), tag, 2e-5, 1e-7, "zero-temperature energy, %s" % tag)
    ctx.state(case["id"])


def compare_real(G, lnd, layered, ctx, static_exact):
    dT, nmax = 0.5, 3
    terms = [0.5 * lnd(1e-10)] + [lnd(dT * n) for n in range(1, nmax + 1)]
    for an in (True, False):
        f = td.finiteT(dT, nmax, 3 * dT, G, analytic_n0=an)
        tol = 2e-5 if an and not layered else 1e-6
        ctx.op(2)
        got = f.get_f_matsubaras(0)
        ctx.close(got[1:], terms[1:], "terms %s" % an, 1e-7, 1e-13, "Matsubara terms")
        ctx.close(got[0], terms[0], "zeroth %s" % an, tol, 1e-13, "zeroth term, analytic=%s" % an)
        F = [dT * i * math.fsum(terms[::i]) for i in (1, 2, 3)]
        ctx.close(f.free_energy(), F, "free energy %s" % an, tol, 1e-13, "free energy")
    if not layered:
        return
    for step in (1, 2):
        one = td.oneRoundtrip(dT, 2, dT, G)
        ctx.op(2)
        ctx.close(one.get_f_matsubaras(0, step), one.get_f_matsubaras(0), "single round trip %d" % step, 1e-9, 1e-13,
                  "single round trip in slices of %d" % step)


def run_real(case, ctx):
    rg = rgeo(case["geo"])
    G = build(case["geo"], precision=1e-12)
    cache = {}

    def lnd(k):
        if k not in cache:
            cache[k] = float(ref.lndet_sum(ref.lndet_m(rg, k)))
        return cache[k]
    layered = isinstance(case["geo"]["mat1"], list) or isinstance(case["geo"]["mat2"], list)
    compare_real(G, lnd, layered, ctx, True)


def run_coated(case, ctx):
    G = geometry.CoatedSphereSphere(0.5, 1.0, mat("drude"), mat("ps"), 0.9, 1.4, mat("mag"), mat("drude"), 3.0, mat("eth"), 2, 3)
    G.precision = 1e-12
    rg = rgeo(geo([0.5, 1.0], [0.9, 1.4], 3.0, ["drude", "ps", "eth"], ["mag", "drude", "eth"], "eth", 2, 3))
    compare_real(G, lambda k: float(ref.lndet_sum(ref.lndet_m(rg, k))), True, ctx, True)


def run_force(case, ctx):
    h = 1e-4

    def free(L):
        return td.finiteT(0.8, case["nmax"], 1.6, build(geo(1.0, 1.2, L, "ps", "ps", "vac", 2, 2))).free_energy()
    F = -(free(3.0 + h) - free(3.0 - h)) / (2 * h)
    ctx.op(3)
    got = td.finiteT(0.8, case["nmax"], 1.6, build(geo(1.0, 1.2, 3.0, "ps", "ps", "vac", 2, 2))).force()
    ctx.close(got, F, "force", 1e-4, 0, "force")


def run(case, ctx):
    p = case["part"]
    if p == "slices":
        run_slices(case, ctx)
    elif p == "badslices":
        for bad in (0, -1, -7, "abc"):
            ctx.op()
            try:
                td.slicewise_eval(lambda x: x, 0, 3, bad)
            except ValueError:
                ctx.check(True, "bad", "")
            else:
                ctx.check(False, "bad %s" % bad, "slice length %r was accepted" % bad)
        ctx.close(td.slicewise_eval(val, 2, 9, "3"), [val(n) for n in range(2, 10)], "text", 0, 0, "slice length '3'")
        ctx.close(td.slicewise_eval(val, 2, 9, 3.0), [val(n) for n in range(2, 10)], "float", 0, 0, "slice length 3.0")
        ctx.close(td.slicewise_eval(val, 0, 450), [val(n) for n in range(451)], "default", 0, 0, "default slice length")
    elif p == "sum":
        run_sum(case, ctx)
    elif p == "integral":
        run_integral(case, ctx)
    elif p == "e0":
        run_e0(case, ctx)
    elif p == "real":
        run_real(case, ctx)
    elif p == "coated":
        run_coated(case, ctx)
    else:
        run_force(case, ctx)

"""Automatic truncations."""
import itertools
import warnings
import numpy as np
from scipy.special import spence
import geometry
import thermodynamics
from ..common import mat, build, geo, rav

ID = "C21"
TIMEOUT = 200
RULE = ("one case per pair of radii (all gaps, precisions, offsets and temperatures of the grid compared with their neighbours), per "
        "explicitly truncated object, and per geometry whose log-determinants are compared with a truncation 1.6 times as large; "
        "non-trivial: every object built")
BOUNDS = {"quick": "14 radius pairs x outside/inside x 129 gaps x 7 precisions x 5 offsets x 6 temperatures; solid, layered and coated; "
                   "explicit truncations 1..6; convergence for 10 material triples x 18 geometries, precision 1e-2 and 1e-4",
          "thorough": "convergence for 3 precisions"}
ASSUMPTIONS = ["convergence is measured relative to the largest term over static to 2 per micrometre, first sphere not larger than the second, "
               "standard offset", "the truncation 1.6 times as large plus four is the oracle of convergence",
               "for gaps up to half the smaller radius the part left out by the automatic number of terms is that of the proximity terms"]
RADII = [(1.0, 1.0), (1.0, 2.0), (2.0, 1.0), (1.0, 3.0), (0.5, 10.0), (10.0, 0.5), (3, 2), (0.1, 0.1), (7.0, 7.5), (1.0, 100.0), (0.3, 0.7),
         (50, 50), (0.02, 5.0), (2.5, 1.5)]
PREC = [1e-1, 1e-2, 1e-3, 1e-4, 1e-6, 1e-8, 1e-12]
OFF = [0, 1, 4, 9, 20]
DT = [0.03, 0.1, 0.4, 0.8, 2.0, 9.0]
TRIPLE = [("pec", "pec", "vac"), ("drude", "ps", "eth"), ("drude", "drude", "vac"), ("ps", "ps", "vac"), ("drude", "drude", "eth"),
          ("pec", "ps", "vac"), ("ps", "pec", "vac"), ("plasma", "drude", "vac"), ("mag", "ps", "vac"), ("const4", "const9", "vac")]


def gaps(th):
    return np.logspace(-2, 2, 129 if th else 33)


def cases(tier):
    th = True
    deep = tier == "thorough"
    out = []
    for i, (r1, r2) in enumerate(RADII):
        for ext in (1, 0):
            if not ext and r1 >= r2:
                continue
            out.append({"id": "grid r=%g,%g %s" % (r1, r2, "outside" if ext else "inside"), "part": "grid", "r": [r1, r2], "ext": ext, "deep": th})
    for lm, ls in itertools.product(range(1, 7), range(1, 9)):
        if ls >= lm:
            out.append({"id": "explicit %d %d" % (lm, ls), "part": "explicit", "lm": lm, "ls": ls})
    geos = [(1.0, 1.0, 1, 0.6), (1.0, 1.0, 1, 1.0), (1.0, 2.0, 1, 0.6), (1.0, 2.0, 1, 1.0), (1.0, 3.0, 0, 0.6), (1.0, 3.0, 0, 1.0)]
    if th:
        geos += [(1.0, 1.0, 1, 0.3), (1.0, 2.0, 1, 0.3), (1.0, 3.0, 0, 0.3), (0.2, 0.2, 1, 1.0), (0.2, 0.5, 1, 0.6), (5.0, 5.0, 1, 1.0),
                 (1.0, 1.0, 1, 0.15), (1.0, 4.0, 1, 1.0), (1.0, 2.5, 0, 1.0), (0.4, 0.4, 1, 0.8), (3.0, 4.0, 1, 0.7), (1.0, 1.5, 0, 0.4)]
    for prec in ((1e-2, 1e-3, 1e-4) if deep else (1e-2, 1e-4)):
        for t in TRIPLE:
            for r1, r2, ext, gap in geos:
                out.append({"id": "convergence %g %s r=%g,%g %s gap=%g" % (prec, t, r1, r2, "outside" if ext else "inside", gap), "part": "conv",
                            "prec": prec, "t": list(t), "r": [r1, r2], "ext": ext, "gap": gap})
    out.append({"id": "convergence 0.01 larger sphere first", "part": "conv", "prec": 1e-2, "t": list(TRIPLE[0]), "r": [3.0, 1.0], "ext": 1, "gap": 0.6})
    for t in TRIPLE[:4]:
        for r1, r2, ext, gap in geos[::2]:
            for dT in (0.3, 1.0, 3.0):
                out.append({"id": "terms %s r=%g,%g gap=%g dT=%g" % (t, r1, r2, gap, dT), "part": "terms", "t": list(t), "r": [r1, r2], "ext": ext,
                            "gap": gap, "dT": dT})
    return out


def run(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["_" + case["part"]](case, ctx)
    ctx.state(case["id"])


def dist(r1, r2, ext, gap):
    """gap in units of the smaller radius"""
    g = gap * min(r1, r2)
    return r1 + r2 + g if ext else max(r1, r2) - min(r1, r2) - g


def isint(x):
    return isinstance(x, (int, np.integer)) and not isinstance(x, bool)


def _grid(case, ctx):
    r1, r2 = case["r"]
    ext = case["ext"]
    vac, pec = mat("vac"), mat("pec")
    fine = gaps(case["deep"])
    if not ext:
        fine = fine[fine * min(r1, r2) < abs(r1 - r2) * 0.999]
    tab = {}
    for gap in fine:
        L = dist(r1, r2, ext, gap)
        for p in PREC:
            for off in OFF:
                l = geometry.get_lmax(r1, r2, L, p, off)
                ctx.op()
                what = "get_lmax(%g, %g, %g, %g, %d)" % (r1, r2, L, p, off)
                ctx.check(isint(l) and l >= 1, "integer", "%s = %r" % (what, l))
                tab[gap, p, off] = l
                l2 = geometry.get_lmax(r2, r1, L, p, off)
                ctx.check(l2 == l, "exchange", "%s = %r, with the radii exchanged %r" % (what, l, l2))
                for s in (2.0, 0.25):
                    l3 = geometry.get_lmax(s * r1, s * r2, s * L, p, off)
                    ctx.check(abs(l3 - l) <= 1, "scale", "%s = %r, with all lengths times %g %r" % (what, l, s, l3))
            if gap < 29.9:
                b = geometry.get_lmax(r1, r2, L, p, 0)
                one = geometry.get_lmax(r1, r2, L, p)
                base = tab[gap, p, 1] - 1
                ctx.check(one == tab[gap, p, 1], "default offset", "standard offset of get_lmax is not one: %r, %r" % (one, tab[gap, p, 1]))
                for off in OFF[1:]:
                    ctx.check(tab[gap, p, off] - base == off, "offset", "offset %d adds %r at gap %g, precision %g" % (off, tab[gap, p, off] - base, gap, p))
                ctx.check(b == max(base, 1), "offset 0", "without offset %r, expected %r" % (b, max(base, 1)))
    for off in OFF:
        for p in PREC:
            col = [tab[g, p, off] for g in fine]
            ctx.check(all(a >= b for a, b in zip(col, col[1:])), "gap", "lmax grows with the gap: %s" % col)
        for g in fine:
            row = [tab[g, p, off] for p in PREC]
            ctx.check(all(a <= b for a, b in zip(row, row[1:])), "precision", "lmax falls with stricter precision: %s" % row)
    # objects
    nm = {}
    for gap in fine[::4]:
        L = dist(r1, r2, ext, gap)
        for p, off in itertools.product(PREC[1:6:2], OFF[1:3]):
            G = geometry.SphereSphere(r1, r2, L, pec, pec, vac, precision=p, l_offset=off)
            ctx.op()
            what = "r=%g,%g L=%g precision %g offset %d" % (r1, r2, L, p, off)
            ctx.check(G.lmax == tab[gap, p, off], "object", "%s: lmax %r, get_lmax says %r" % (what, G.lmax, tab[gap, p, off]))
            ctx.check(isint(G.lssmax) and G.lssmax >= G.lmax, "lssmax", "%s: lssmax %r, lmax %r" % (what, G.lssmax, G.lmax))
            ctx.check(G.lssmax >= int(max(r1, r2) / min(r1, r2) * G.lmax) - 1, "lssmax ratio",
                      "%s: lssmax %r too small for the ratio of radii, lmax %r" % (what, G.lssmax, G.lmax))
            H = geometry.SphereSphere([0.3 * r1, r1], [0.2 * r2, 0.9 * r2, r2], L, [pec, vac, vac], [pec, vac, pec, vac], vac, precision=p, l_offset=off)
            ctx.check((H.lmax, H.lssmax) == (G.lmax, G.lssmax), "layered", "%s: layered spheres get %r, solid ones %r" % (
                what, (H.lmax, H.lssmax), (G.lmax, G.lssmax)))
            X = geometry.SphereSphere(r2, r1, L, pec, pec, vac, precision=p, l_offset=off) if ext else G
            for dT in DT:
                n = thermodynamics.finiteT(dT, "automatic", 2 * dT, G).nmax
                ctx.op()
                ctx.check(isint(n) and n >= 1, "nmax", "%s dT=%g: nmax %r" % (what, dT, n))
                nm[gap, p, off, dT] = n
                nx = thermodynamics.finiteT(dT, "automatic", 2 * dT, X).nmax
                ctx.check(nx == n, "nmax exchange", "%s dT=%g: nmax %r, spheres exchanged %r" % (what, dT, n, nx))
                nh = thermodynamics.finiteT(dT, "automatic", 2 * dT, H).nmax
                ctx.check(nh == n, "nmax layered", "%s dT=%g: nmax %r, layered %r" % (what, dT, n, nh))
                if gap <= 0.5:
                    # left-out part of the sum of the proximity terms Li2(exp(-2 k gap))
                    d = gap * min(r1, r2)
                    k = dT * np.arange(1, min(6 * n + 400, int(20 / (d * dT)) + 2))
                    t = spence(1 - np.exp(-2 * k * d))
                    left = t[n:].sum() / (t.sum() + 0.5 * spence(0.0))
                    ctx.check(left <= 0.1 * p, "nmax tail", "%s dT=%g: nmax=%r leaves out %.3g of the sum" % (what, dT, n, left))
                n1 = thermodynamics.oneRoundtrip(dT, "automatic", 2 * dT, G).nmax
                ctx.check(n1 == n, "nmax single", "%s dT=%g: nmax %r, single round trip %r" % (what, dT, n, n1))
                if off == OFF[1]:
                    E = geometry.SphereSphere(r1, r2, L, pec, pec, vac, lmax=G.lmax, lssmax=G.lssmax)
                    ne = thermodynamics.finiteT(dT, "automatic", 2 * dT, E).nmax
                    ctx.check(ne == n, "nmax explicit", "%s dT=%g: nmax %r, with the same lmax given %r" % (what, dT, n, ne))
        G = geometry.SphereSphere(r1, r2, L, pec, pec, vac)
        ctx.check(G.lmax == geometry.get_lmax(r1, r2, L, 1e-4, 4), "defaults", "defaults at r=%g,%g L=%g: lmax %r" % (r1, r2, L, G.lmax))
        if ext:
            C = geometry.CoatedSphereSphere(0.5 * r1, r1, pec, vac, 0.3 * r2, r2, pec, vac, L, vac, "automatic", "automatic")
            ctx.check((C.lmax, C.lssmax) == (G.lmax, G.lssmax), "coated", "coated spheres get %r, solid ones %r" % ((C.lmax, C.lssmax), (G.lmax, G.lssmax)))
    for gap in fine[::4]:
        for off, dT in itertools.product(OFF[1:3], DT):
            row = [nm[gap, p, off, dT] for p in PREC[1:6:2]]
            ctx.check(all(a <= b for a, b in zip(row, row[1:])), "nmax precision", "nmax falls with stricter precision: %s" % row)
        for off, p in itertools.product(OFF[1:3], PREC[1:6:2]):
            row = [nm[gap, p, off, dT] for dT in DT]
            ctx.check(all(a >= b for a, b in zip(row, row[1:])), "nmax temperature", "nmax grows with temperature: %s" % row)
    for off, dT, p in itertools.product(OFF[1:3], DT, PREC[1:6:2]):
        col = [(g, nm[g, p, off, dT]) for g in fine[::4]]
        ctx.check(all(a >= b for (g, a), (h, b) in itertools.combinations(col, 2) if h >= 2 * g), "nmax gap",
                  "nmax is larger for a gap at least twice as large: %s" % col)
    ctx.outcome(sorted(tab.values())[::50])


def _explicit(case, ctx):
    lm, ls = case["lm"], case["ls"]
    k = np.array([0.4, 1.3])
    sizes = [("solid", build(geo(1.0, 1.2, 2.9, "drude", "ps", "vac", lm, ls))), ("inside", build(geo(0.6, 2.0, 0.8, "drude", "ps", "vac", lm, ls))),
             ("layered", build(geo([0.6, 1.0], [0.3, 0.8], 2.6, ["ps", "drude", "vac"], ["drude", "ps", "vac"], "vac", lm, ls))),
             ("coated", geometry.CoatedSphereSphere(0.6, 1.0, mat("ps"), mat("drude"), 0.3, 0.8, mat("drude"), mat("ps"), 2.6, mat("vac"), lm, ls))]
    for off in OFF:
        G = geometry.SphereSphere(1.0, 1.2, 2.9, mat("ps"), mat("ps"), mat("vac"), lmax=lm, l_offset=off, lssmax=ls)
        ctx.op()
        ctx.check((G.lmax, G.lssmax) == (lm, ls), "unchanged", "lmax, lssmax = %r, asked for %r" % ((G.lmax, G.lssmax), (lm, ls)))
        G = geometry.SphereSphere(1.0, 3.0, 4.9, mat("ps"), mat("ps"), mat("vac"), lmax=lm, l_offset=off)
        ctx.op()
        ctx.check(G.lmax == lm and isint(G.lssmax) and G.lssmax >= 3 * lm - 1, "automatic lssmax", "lmax, lssmax = %r for lmax=%d" % ((G.lmax, G.lssmax), lm))
        G = geometry.SphereSphere(1.0, 3.0, 4.9, mat("ps"), mat("ps"), mat("vac"), l_offset=off, lssmax=100 + ls)
        ctx.op()
        ctx.check(G.lssmax == 100 + ls and G.lmax == geometry.get_lmax(1.0, 3.0, 4.9, 1e-4, off), "automatic lmax", "lmax, lssmax = %r" % ((G.lmax, G.lssmax),))
    for name, G in sizes:
        ctx.check((G.lmax, G.lssmax) == (lm, ls), "unchanged " + name, "lmax, lssmax = %r, asked for %r" % ((G.lmax, G.lssmax), (lm, ls)))
        for m in range(0, lm + 1):
            B = G.blockmatrices(m, k)
            ctx.op()
            n = lm - max(m, 1) + 1
            ctx.check(len(B) == 4 and all(np.shape(b) == (2, n, n) for b in B), "size " + name, "blocks for m=%d, lmax=%d: %s" % (m, lm, [np.shape(b) for b in B]))
        for nmax in (1, 3, 7):
            for cls in (thermodynamics.finiteT, thermodynamics.oneRoundtrip):
                if lm > 3 and name != "solid":
                    continue
                o = cls(0.9, nmax, 1.8, G)
                ctx.op()
                ctx.check(o.nmax == nmax, "nmax", "nmax %r, asked for %d" % (o.nmax, nmax))
                t = rav(o.get_f_matsubaras(0))
                ctx.check(t.shape == (nmax + 1,) and np.isfinite(t).all(), "terms", "%s terms for nmax %d" % (t.shape, nmax))


def _conv(case, ctx):
    r1, r2 = case["r"]
    m1, m2, m3 = [mat(n) for n in case["t"]]
    L = dist(r1, r2, case["ext"], case["gap"])
    p = case["prec"]
    G = geometry.SphereSphere(r1, r2, L, m1, m2, m3, precision=p)
    big = geometry.SphereSphere(r1, r2, L, m1, m2, m3, lmax=int(1.6 * G.lmax) + 4, lssmax=int(1.6 * G.lssmax) + 4, precision=1e-9)
    k = np.array([0.0, 0.05, 0.5, 2.0])
    if "dia" in case["t"] or "mag" in case["t"]:
        k = k[1:]
    ctx.op(2)
    a, b = rav(G.mSumme(k)), rav(big.mSumme(k))
    err = np.abs(a - b).max() / np.abs(b).max()
    ctx.outcome("%.3g" % err)
    ctx.check(err <= p, "converged", "precision %g asked for, lmax=%d lssmax=%d gives an error of %.3g" % (p, G.lmax, G.lssmax, err))


def _terms(case, ctx):
    r1, r2 = case["r"]
    m1, m2, m3 = [mat(n) for n in case["t"]]
    L = dist(r1, r2, case["ext"], case["gap"])
    p, dT = 1e-2, case["dT"]
    A = geometry.SphereSphere(r1, r2, L, m1, m2, m3, precision=p)
    n = thermodynamics.finiteT(dT, "automatic", 2 * dT, A).nmax
    G = geometry.SphereSphere(r1, r2, L, m1, m2, m3, lmax=A.lmax, lssmax=A.lmax, precision=1e-8)
    f = rav(thermodynamics.finiteT(dT, int(1.6 * n) + 6, 2 * dT, G).get_f_matsubaras(0))
    ctx.op(2)
    tail, total = abs(f[n + 1:].sum()), abs(f.sum())
    ctx.outcome("%.3g" % (tail / total))
    ctx.check(tail <= 0.1 * p * total, "terms", "precision %g, nmax=%d leaves out %.3g of the sum" % (p, n, tail / total))
    # one term too many is harmless, but the automatic number has to be what the sum uses
    o = rav(thermodynamics.finiteT(dT, "automatic", 2 * dT, G).get_f_matsubaras(0))
    ctx.op()
    ctx.check(o.shape == (n + 1,), "used", "%s terms with nmax=%d" % (o.shape, n))

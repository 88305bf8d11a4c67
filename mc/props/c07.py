"""Translation coefficients."""
import numpy as np
import mpmath as mp
from mpmath import mpf
import translation
from .. import ref
from ..common import mat, rmat, MATS, bessel_tol

ID = "C07"
TIMEOUT = 200
RULE = ("one case per (inside/outside, medium, distance, wavenumber) and per zero-frequency setting: every m and "
        "every pair of orders, rectangular truncations both ways; non-trivial: coefficients differ between cases")
BOUNDS = {"quick": "7 media x 3 distances x 9 wavenumbers, lmax <= 8, lssmax <= 11, all m; every pair of truncations up to 12; settings with up to 40 x 40; "
                   "wavenumbers down to 1e-10 with orders up to 30; "
                   "zero frequency up to order 40",
          "thorough": "9 media x 5 distances x 15 wavenumbers, lmax <= 11, lssmax <= 14; lmax 30, lssmax 40; zero frequency to order 40"}
ASSUMPTIONS = ["exact Gaunt coefficients and 40-digit Bessel functions are the oracle",
               "tolerance 1e-9 of the sum of absolute values of the terms"]


def cases(tier):
    q = tier == "quick"
    media = ["vac", "ps", "eth", "mag", "dia", "const4", "drude"] + ([] if q else ["magvac", "plasma01"])
    dist = [0.4, 2, 31.0] if q else [0.05, 0.4, 2, 7.7, 31.0]
    ks = [1e-6, 4e-4, 2e-3, 0.03, 0.3, 1.0, 3.0, 9.0, 33.0]
    if not q:
        ks = sorted(ks + [1e-9, 1e-4, 0.011, 0.1, 5.5, 17.0])
    out = []
    for L in (2,):
        for ext in (0, 1):
            for tr in [(1, 1), (3, 5), (5, 3)] + ([(16, 12), (9, 21), (33, 3), (2, 40)] if q else [(40, 30), (9, 60), (60, 4)]):
                for m in range(0, min(tr) + 1):
                    out.append({"id": "static ext=%d %s m=%d" % (ext, tr, m), "static": True, "ext": ext,
                                "tr": list(tr), "m": m})
    for ext in (1, 0):
        for med in media:
            for L in dist:
                for k in ks:
                    out.append({"id": "ext=%d %s L=%g k=%g" % (ext, med, L, k), "static": False, "ext": ext, "med": med,
                                "L": L, "k": k, "trs": [[2, 2], [8, 11], [6, 3]] if q else [[2, 2], [11, 14], [9, 4]]})
    for ext in (1, 0):
        for med, k in (("vac", 0.8), ("mag", 4.1)):
            for tr in ([20, 20], [11, 25], [17, 6]) if q else ([30, 30], [14, 40]):
                out.append({"id": "big ext=%d %s k=%g %s" % (ext, med, k, tr), "static": False, "ext": ext, "med": med,
                            "L": 2.3, "k": k, "trs": [tr]})
            for tr in ([32, 34], [5, 45], [41, 3], [40, 40]):
                out.append({"id": "far ext=%d %s k=%g %s" % (ext, med, k, tr), "static": False, "ext": ext, "med": med,
                            "L": 2.3, "k": k, "trs": [tr], "ms": sorted({0, 1, 3, min(tr) // 2, min(tr) - 1, min(tr)})})
    # every pair of truncations up to a bound
    for ext in (1, 0):
        for lmax in range(1, 13):
            out.append({"id": "rect ext=%d lmax=%d" % (ext, lmax), "static": False, "ext": ext, "med": "mag", "L": 3.1, "k": 0.7,
                        "trs": [[lmax, lss] for lss in range(1, 13)]})
    # far below the order: the Bessel functions span hundreds of decades
    for ext in (1, 0):
        for med, k in (("vac", 1e-7), ("mag", 1e-10), ("eth", 2e-3)):
            for tr in ([24, 24], [6, 30]) if q else ([24, 24], [40, 40], [8, 60]):
                out.append({"id": "span ext=%d %s k=%g %s" % (ext, med, k, tr), "static": False, "ext": ext, "med": med,
                            "L": 0.5, "k": k, "trs": [tr], "ms": [0, 1, 2, min(tr) // 2, min(tr)]})
    return out


def run(case, ctx):
    if case["static"]:
        return static(case, ctx)
    ext, L, k = case["ext"], case["L"], case["k"]
    x = mpf(k) * mpf(L) * ref.index(MATS[case["med"]], k)
    top = max(sum(t) for t in case["trs"]) + 1
    bes = ref.bessel_k(x, top) if ext else ref.bessel_i(x, top)
    tol0 = 1e-9 + (0 if ext else 10 * bessel_tol(float(x)))
    done = set()
    for lmax, lss in case["trs"]:
        for m in case.get("ms", range(0, min(lmax, lss) + 1)):
            ctx.op()
            ctx.state(case["id"], lmax, lss, m)
            for flag in ((ext,) if (lmax, lss) != (2, 2) else (ext, float(ext))):
                v = translation.translation(lmax, lss, m, mat(case["med"]), L, np.array([k]), flag).trans_ab()
                if not ctx.check(len(v) == 5 and all(np.shape(a) == (1, lmax - max(m, 1) + 1, lss - max(m, 1) + 1) for a in v),
                                 "shape", "m=%d shapes %s" % (m, [np.shape(a) for a in v])):
                    return
                lmin = max(m, 1)
                got = [[], [], [], []]
                want = [[], [], [], []]
                at = []
                for l1 in range(lmin, lmax + 1):
                    for l2 in range(lmin, lss + 1):
                        terms = _terms(l1, l2, m, x, ext, bes)
                        unit = bes[l1 + l2] if ext else bes[abs(l1 - l2)]
                        sc = float(v[4][0, l1 - lmin, l2 - lmin] - mp.log(unit))
                        for i in range(4):
                            want[i].append(float(terms[i] / unit))
                            got[i].append(float(v[i][0, l1 - lmin, l2 - lmin]) * np.exp(sc))
                        at.append(float(terms[4] / unit))
                at = np.array(at)
                ln = abs(float(mp.log(bes[top])))
                for i, nm in enumerate(("EE ab", "EE ba", "EM ab", "EM ba")):
                    ctx.close(got[i], want[i], nm, 1e-9, at * (tol0 + 1e-13 * ln),
                              "%s m=%d lmax=%d lssmax=%d" % (nm, m, lmax, lss))


def _terms(l1, l2, m, x, ext, bes):
    g = ref.gaunt(l1, l2, m)
    ee = em = ee2 = em2 = a = mpf(0)
    pre = (-1)**m * mp.sqrt(mp.pi) * (2 / mp.pi if ext else 1)
    for j, lpp in enumerate(range(abs(l1 - l2), l1 + l2 + 1, 2)):
        c = (-1 if ext else (-1)**lpp) * pre * bes[lpp] * g[j] * ref._sqrt_lpp(lpp, l1, l2)
        e1 = (l1 * (l1 + 1) + l2 * (l2 + 1) - lpp * (lpp + 1)) * c
        e2 = 2 * m * x * c
        ee += e1
        em += e2
        ee2 += e1 * (-1)**lpp
        em2 -= e2 * (-1)**lpp
        a += abs(e1) + abs(e2)
    return ee, ee2, em, em2, a


def static(case, ctx):
    """the coefficients are independent of medium and distance, with the power of kL removed"""
    ext, (lmax, lss), m = case["ext"], case["tr"], case["m"]
    old = mp.mp.dps
    mp.mp.dps = 100
    try:
        x = mpf(10)**-30
        lmin = max(1, m)
        top = lmax + lss
        bes = ref.bessel_k(x, top) if ext else ref.bessel_i(x, top)
        want = np.empty((lmax - lmin + 1, lss - lmin + 1))
        for l1 in range(lmin, lmax + 1):
            for l2 in range(lmin, lss + 1):
                t = _terms(l1, l2, m, x, ext, bes)
                v = t[0] * x**(l1 + l2 + 1) if ext else t[1] * x**(-abs(l1 - l2))
                want[l1 - lmin, l2 - lmin] = float(mp.log(abs(v))) if v != 0 else -np.inf
                ctx.points += 1
                if l1 == lmin and l2 == lmin:
                    sg = float(mp.sign(v))
                if float(mp.sign(v)) != sg:
                    raise AssertionError("model sign")
        for med in ("vac", "mag", "eth"):
            for L in (0.3, 5):
                for z in (np.array([0]), np.array([0.0])):
                    ctx.op()
                    ctx.state(case["id"], med, L, str(z.dtype))
                    v = translation.translation(lmax, lss, m, mat(med), L, z, ext).trans_ab()
                    ctx.close(v[0], np.full(want.shape, sg), "sign", 0, 0, "sign, %s" % med)
                    ctx.close(v[1], want, "ln", 1e-11, 1e-9, "ln of static coefficient, %s" % med)
    finally:
        mp.mp.dps = old

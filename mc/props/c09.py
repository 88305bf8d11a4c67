"""The zeroth Matsubara term."""
import itertools
import numpy as np
import mpmath as mp
import thermodynamics
from .. import ref
from ..common import mat, build, geo, rgeo, rav

ID = "C09"
TIMEOUT = 250
RULE = ("one case per geometry and material pair: every m, the sum, arrays that start with zero, and the thermodynamic "
        "object; non-trivial: static log-determinant different from zero")
BOUNDS = {"quick": "17 sphere materials squared x 3 dielectric media outside and inside at lmax 2, lssmax 3; 6 material pairs x 8 "
                   "geometries x 9 truncations up to 12; every lmax 1..6 x lssmax-lmax 0..5; lmax 20 and 32 for six m",
          "thorough": "6 media, truncations up to 18, 40 for six m"}
ASSUMPTIONS = ["the model at k = 1e-28 with 130 digits is the limit",
               "accuracy 1e-8 relative + 3e-13 absolute"]
SP = ["vac", "ps", "eth", "const4", "drude", "drude_ps", "plasma", "plasma01", "plasma2", "plasmadrude", "drudemag",
      "plasmamag", "mag", "magvac", "dia", "smith", "pec"]


def cases(tier):
    q = tier == "quick"
    out = []

    def add(g, **kw):
        out.append(dict(kw, **{"id": "%s|%s|%s r=%s,%s L=%s l=%s,%s" % (g["mat1"], g["mat2"], g["mat3"], g["r1"], g["r2"], g["L"],
                                                             g["lmax"], g["lssmax"]), "g": g}))
    for m3 in ["vac", "eth", "mag"] + ([] if q else ["ps", "dia", "const4"]):
        for a in SP:
            for b in SP:
                add(geo(0.8, 1.3, 2.9, a, b, m3, 2, 3))
                add(geo(0.5, 2.0, 1.1, a, b, m3, 2, 3))
    tr = [(1, 1), (1, 3), (2, 2), (3, 3), (3, 6), (5, 5), (7, 8)] + [(10, 10), (12, 14)] + ([] if q else [(14, 15), (18, 20)])
    pairs = [("drude", "drude", "vac"), ("pec", "pec", "vac"), ("plasma01", "ps", "vac"), ("mag", "drude", "eth"),
             ("ps", "plasmamag", "mag"), ("pec", "eth", "dia")]
    for lm, ls in tr:
        for t in pairs:
            for r1, r2, L in [(1.0, 1.0, 2.1), (0.2, 1.5, 1.9), (1.5, 0.2, 1.9), (3, 2, 25.0),
                              (0.5, 2.0, 1.1), (0.9, 1.0, 0.05), (0.2, 3.0, 2.0), (1, 20, 10)]:
                add(geo(r1, r2, L, *t, lm, ls))
    for lm in range(1, 7):
        for ls in range(lm, lm + 6):
            add(geo(0.8, 1.0, 2.3, "plasma01", "mag", "eth", lm, ls))
            add(geo(0.3, 1.0, 0.5, "plasma01", "mag", "eth", lm, ls))
    for lm, ls in [(20, 22), (32, 32)] if q else [(20, 22), (32, 32), (40, 45)]:
        for t in pairs:
            for r1, r2, L in [(1.0, 0.7, 1.9), (0.6, 2.0, 1.2)]:
                add(geo(r1, r2, L, *t, lm, ls), ms=sorted({0, 1, 2, lm // 2, lm - 1, lm}))
    seen, res = set(), []
    for c in out:
        if c["id"] not in seen:
            seen.add(c["id"])
            res.append(c)
    res.sort(key=lambda c: (c["g"]["lmax"], c["g"]["lssmax"]))
    return res


def run(case, ctx):
    g = case["g"]
    old = mp.mp.dps
    mp.mp.dps = 130
    try:
        parts = ref.lndet_m(rgeo(g), mp.mpf(10)**-28, case.get("ms"))
    finally:
        mp.mp.dps = old
    total = float(ref.lndet_sum(parts))
    want = {m: float(v) for m, v in parts.items()}
    what = case["id"]
    ctx.state(what)
    k = np.array([0.0, 0.7])
    z = np.array([0])
    fin = rav(build(g).mSumme(k[1:]))
    at, rt = 3e-13, 1e-8
    for m in case.get("ms", range(0, g["lmax"] + 1)):
        ctx.state(what, m)
        ctx.op(4)
        w = [want[m]]
        ctx.close(rav(build(g).single_m_k0(m)), w, "single_m_k0", rt, at, "static ln det, m=%d, %s" % (m, what))
        ctx.close(rav(build(g).single_m(m, z)), w, "single_m", rt, at, "single_m(m=%d, [0]), %s" % (m, what))
        got = rav(build(g).single_m(m, k))
        ctx.close(got[:1], w, "single_m 0,k", rt, at, "single_m(m=%d, [0, k])[0], %s" % (m, what))
        ctx.check(got.shape == (2,), "shape", "single_m([0,k]) has shape %s" % (got.shape,))
        A = np.array([np.asarray(b)[0] for b in build(g).blockmatrices(m, k)])
        n = A.shape[1]
        big = np.eye(2 * n) - np.concatenate([np.concatenate(A[:2], axis=1), np.concatenate(A[2:], axis=1)], axis=0)
        ctx.close([np.linalg.slogdet(big)[1]], w, "blocks", 1e-7, 1e-11, "static block matrix, m=%d, %s" % (m, what))
        if g["lmax"] <= 4:
            ctx.op()
            F = build(g)
            ch = [np.asarray(b) for b in F.blockmatrices_channels(m, k)]
            bl = [np.asarray(b) for b in build(g).blockmatrices(m, k)]
            if ctx.check(len(ch) == 8, "channels", "%d channels" % len(ch)):
                for i, j in ((0, 0), (1, 3), (2, 1), (3, 2)):      # EE, MM, EM, ME against EE, EM, ME, MM
                    c, b = ch[2 * i] + ch[2 * i + 1], bl[j]
                    ctx.close(c, b, "channels", 1e-10, 1e-13 * np.abs(b).max(), "channels with zero frequency, m=%d, %s" % (m, what))
    if "ms" in case:
        return
    ctx.op(6)
    w = [total]
    ats = 1e-12
    ctx.close(rav(build(g).mSumme_k0()), w, "mSumme_k0", rt, ats, "static sum, %s" % what)
    ctx.close(rav(build(g).mSumme(z)), w, "mSumme", rt, ats, "mSumme([0]), %s" % what)
    got = rav(build(g).mSumme(k))
    ctx.close(got, [total, fin[0]], "mSumme 0,k", rt, ats, "mSumme([0, k]), %s" % what)
    ctx.close(rav(build(g, precision=1e-4).mSumme_k0()), w, "precision", 3e-4, ats, "static sum, precision 1e-4, %s" % what)
    td = thermodynamics.finiteT(0.7, 1, 0.7, build(g))
    ctx.close(rav(td.F_alle(z)), [0.5 * total], "F_alle", rt, ats, "zeroth Matsubara term, %s" % what)
    ctx.close(rav(td.F_alle(k)), [0.5 * total, fin[0]], "F_alle", rt, ats, "Matsubara terms, %s" % what)

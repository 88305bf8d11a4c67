"""Round-trip log-determinants against the model."""
import itertools
import numpy as np
import mpmath as mp
import geometry
from .. import ref
from ..common import mat, build, geo, rgeo, index, bessel_tol, rav

ID = "C08"
TIMEOUT = 250
RULE = ("one case per geometry (materials, radii, distance, truncation): every wavenumber of the list, every m, the "
        "sum over m, and the sum of polarisation channels; non-trivial: log-determinant different from zero")
BOUNDS = {"quick": "all 9x9 sphere materials x 4 media outside and inside at lmax 2, lssmax 3; 4 radius pairs x 3 gaps x 9 "
                   "truncations x 3 material triples; every lmax 1..8 x lssmax-lmax 0..6; layered and coated spheres; lmax up to 12, up to 33 for six m",
          "thorough": "13x13 materials x 7 media, 8 wavenumbers, truncations to 16"}
ASSUMPTIONS = ["the determinant of the model matrix (40 digits, no scaling) is the oracle",
               "accuracy 1e-8 relative + 3e-13 absolute (double-precision log-determinant), plus the rounding noise "
               "of the closed form of i_1 at small arguments"]


def cases(tier):
    q = tier == "quick"
    out = []
    sp = ["vac", "ps", "drude", "plasma01", "mag", "drudemag", "smith", "pec", "dia"]
    med = ["vac", "eth", "mag", "plasma01"]
    ks = [0.02, 0.6, 4.0]
    if not q:
        sp += ["plasma", "const4", "plasmamag", "drude_ps"]
        med += ["ps", "dia", "drude"]
        ks = [1e-6, 3e-3, 0.02, 0.15, 0.6, 1.7, 4.0, 11.0]

    def add(g, ks, **kw):
        c = {"id": "%s|%s|%s r=%s,%s L=%s l=%s,%s" % ("+".join(g["mat1"]) if isinstance(g["mat1"], list) else g["mat1"],
                                                      "+".join(g["mat2"]) if isinstance(g["mat2"], list) else g["mat2"],
                                                      g["mat3"], g["r1"], g["r2"], g["L"], g["lmax"], g["lssmax"]),
             "g": g, "ks": ks}
        c.update(kw)
        if g["lmax"] > 6:
            c["heavy"] = 1
        if "coated" in kw:
            c["id"] += " coated"
        out.append(c)
    for m3 in med:
        for a in sp:
            for b in sp:
                add(geo(0.8, 1.3, 2.9, a, b, m3, 2, 3), ks)
                add(geo(0.5, 2.0, 1.1, a, b, m3, 2, 3), ks)
    trip = [("drude", "ps", "eth"), ("pec", "pec", "vac"), ("mag", "plasma01", "dia")]
    trunc = [(1, 1), (1, 2), (1, 4), (2, 2), (3, 3), (3, 5), (4, 4), (4, 7), (5, 5)]
    k2 = [1e-6, 0.02, 0.5, 3.0]
    for (lm, ls) in trunc:
        for t in trip:
            for r1, r2 in [(1.0, 1.0), (0.3, 1.5), (1.5, 0.3), (3, 2)]:
                for gap in (0.1, 0.7, 6.0):
                    if lm >= 4 and gap == 0.1 and q and r1 != 3:
                        continue
                    add(geo(r1, r2, r1 + r2 + gap * min(r1, r2), *t, lm, ls), k2)
            for r1, r2, L in [(0.5, 2.0, 1.1), (0.2, 3.0, 0.4), (1, 1.6, 0.5), (0.4, 2.0, 1e-3)]:
                add(geo(r1, r2, L, *t, lm, ls), k2)
    # all lengths and wavenumbers given as integers
    for t in trip + [("plasma01", "ps", "vac"), ("mag", "mag", "eth")]:
        for r1, r2, L in ((1, 2, 4), (2, 1, 5), (1, 4, 2), (1, 5, 3)):
            add(geo(r1, r2, L, *t, 3, 4), [1, 2, 3])
    big = [(8, 9), (12, 12)] if q else [(8, 9), (12, 12), (16, 17)]
    for lm, ls in big:
        for t in trip[:2]:
            add(geo(1.0, 1.2, 2.4, *t, lm, ls), [0.4])
            add(geo(0.9, 2.0, 0.9, *t, lm, ls), [0.4])
    # high orders: some m only
    for lm, ls in [(18, 18), (20, 26), (33, 33)] if q else [(18, 18), (20, 26), (27, 30), (33, 33), (40, 44)]:
        for t in trip:
            ms = sorted({0, 1, 2, lm // 2, lm - 1, lm})
            add(geo(1.0, 0.7, 1.9, *t, lm, ls), [0.3], ms=ms, high=1)
            add(geo(0.6, 2.0, 1.2, *t, lm, ls), [0.3], ms=ms, high=1)
    # every pair of truncations
    for lm in range(1, 9):
        for ls in range(lm, lm + 7):
            add(geo(0.8, 1.0, 2.3, "drude", "mag", "eth", lm, ls), [0.4, 2.0], ms=None, rect=1)
            add(geo(0.3, 1.0, 0.5, "drude", "mag", "eth", lm, ls), [0.4, 2.0], ms=None, rect=1)
    lay = [["ps", "drude"], ["drude", "ps"], ["pec", "mag"], ["ps", "ps"], ["mag", "drude", "ps"], ["pec", "drude", "eth"], ["drude", "vac", "drude"]]
    for m3 in ("vac", "eth") if q else ("vac", "eth", "mag"):
        for a, b in itertools.product(lay, lay):
            rr = {2: [0.6, 1.0], 3: [0.3, 0.5, 1.2]}
            add(geo(rr[len(a)], rr[len(b)], 2.9, a + [m3], b + [m3], m3, 2, 3), ks)
        for a in lay:
            add(geo(rr[len(a)], 0.7, 2.5, a + [m3], "drude", m3, 3, 3), ks)
            add(geo(0.7, rr[len(a)], 2.5, "drude", a + [m3], m3, 3, 4), ks)
        two = [x for x in lay if len(x) == 2]
        for a, b in itertools.product(two, two):                       # thin layers
            add(geo([0.9998, 1.0], [0.8, 0.8004], 2.6, a + [m3], b + [m3], m3, 2, 3), ks)
        for a, b in itertools.product(two, two):
            add(geo([0.6, 1.0], [0.3, 0.8], 2.6, a + [m3], b + [m3], m3, 2, 3), ks, coated=True)
    out.sort(key=lambda c: (c["g"]["lmax"], c["g"]["lssmax"]))
    return out


def tol(g, k):
    """relative accuracy double precision allows at this wavenumber"""
    t = 1e-8
    rs = [r for q in ("r1", "r2") for r in (g[q] if isinstance(g[q], list) else [g[q]])]
    ms = [m for q in ("mat1", "mat2", "mat3") for m in (g[q] if isinstance(g[q], list) else [g[q]]) if m != "pec"]
    for m in ms:
        for r in rs + [g["L"]]:
            t = max(t, 60 * bessel_tol(k * r * index(m, k)))
    return t


def make(case, **kw):
    g = case["g"]
    if case.get("coated"):
        G = geometry.CoatedSphereSphere(g["r1"][0], g["r1"][1], mat(g["mat1"][0]), mat(g["mat1"][1]), g["r2"][0],
                                        g["r2"][1], mat(g["mat2"][0]), mat(g["mat2"][1]), g["L"], mat(g["mat3"]),
                                        g["lmax"], g["lssmax"])
        G.precision = 1e-14
        return G
    return build(g, **kw)


def run(case, ctx):
    g, ks = case["g"], case["ks"]
    R = rgeo(g)
    ms = case.get("ms")
    old = mp.mp.dps
    mp.mp.dps = 40 if not ms else 60 + 6 * g["lmax"]     # unscaled matrices of high order
    try:
        parts = [ref.lndet_m(R, k, ms) for k in ks]
    finally:
        mp.mp.dps = old
    total = np.array([float(ref.lndet_sum(p)) for p in parts])
    rt = np.array([tol(g, k) for k in ks])
    karr = np.array(ks)
    what = case["id"]
    ctx.state(what)
    for k in ks:
        ctx.state(what, k)
    for m in ms or range(0, g["lmax"] + 1):
        ctx.op(2)
        want = np.array([float(p[m]) for p in parts])
        G = make(case)
        ctx.close(rav(G.single_m(m, karr)), want, "m", 0, rt * np.abs(want) + 3e-13, "ln det, m=%d, %s" % (m, what))
        if g["lmax"] <= 4:
            ch = make(case).blockmatrices_channels(m, karr)
            if ctx.check(len(ch) == 8, "channels", "%d channels" % len(ch)):
                # [EE, EE, MM, MM, EM, EM, ME, ME]
                EE, MM, EM, ME = (np.asarray(ch[2 * i]) + np.asarray(ch[2 * i + 1]) for i in range(4))
                n = g["lmax"] - max(m, 1) + 1
                big = np.concatenate([np.concatenate([EE, EM], axis=2), np.concatenate([ME, MM], axis=2)], axis=1)
                ctx.check(big.shape == (len(ks), 2 * n, 2 * n), "channels", "shape %s" % (big.shape,))
                got = np.linalg.slogdet(np.eye(2 * n) - big)[1]
                ctx.close(got, want, "channels", 0, 10 * rt * np.abs(want) + 1e-11,
                          "ln det of summed channels, m=%d, %s" % (m, what))
    if ms:
        return
    ctx.op(2 + len(ks))
    G = make(case)
    ctx.close(rav(G.mSumme(karr)), total, "sum", 0, rt * np.abs(total) + 1e-9 * np.abs(total).max() + 1e-12,
              "sum over m, %s" % what)
    for j, k in enumerate(ks):
        ctx.close(rav(make(case).mSumme(np.array([k]))), total[j:j + 1], "sum1", 0, rt[j] * abs(total[j]) + 1e-12,
                  "sum over m at k=%g, %s" % (k, what))
    if not case.get("coated"):
        ctx.op()
        got = rav(make(case, precision=1e-4).mSumme(karr))
        ctx.close(got, total, "sum precision", 0, rt * np.abs(total) + 3e-4 * np.abs(total).max() + 1e-12,
                  "sum over m with precision 1e-4, %s" % what)

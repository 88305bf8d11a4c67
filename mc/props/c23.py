"""Symmetries relating evaluations of the real code to each other."""
import itertools
import math
import warnings
import numpy as np
import geometry
import materials
from ..common import mat, index, bessel_tol, MATS, rav

ID = "C23"
TIMEOUT = 200
RULE = ("one case per symmetry and geometry: two or more evaluations on the same list of wavenumbers are compared; non-trivial: terms "
        "different from zero (except where vanishing is the claim)")
BOUNDS = {"quick": "exchange: 15x15 materials x 7 media, layered (also thin layers) and coated, 4 radius pairs (and nearly equal radii of one material object) x 3 distances x truncations 1..10; scaling: 5x5x3 "
                   "materials x 6 factors outside and inside; duality: 6x6x4 materials outside and inside; own layers: 15 materials x 4 media x "
                   "splits; vanishing: 15 materials x either sphere; attraction and decay: 17 materials x 7 media x 12 distances x 9 wavenumbers",
          "thorough": "scaling and attraction also at truncations 10 and 16"}
ASSUMPTIONS = ["agreement within the rounding of double precision (1e-8 relative, 1e-12 absolute, more near the cancellation in i_1)",
               "decrease with wavenumber: materials without dispersion; decrease with distance and attraction: any material"]
MAT = ["vac", "ps", "eth", "drude", "plasma", "plasma01", "mag", "magvac", "smith", "pec", "dia", "drude_ps"]
MED = ["vac", "eth", "mag", "ps", "dia"]
THIN = [[0.9999, 1.0], [1.0, 1.0005], [0.05, 1.1], [0.99, 1.0], [0.7, 0.7002]]
KS = [1e-3, 0.05, 0.6, 2.5]
# name -> (epsilon, mu), without dispersion
CONST = {"e4": (4.0, 1.0), "e9": (9.0, 1.0), "m4": (1.0, 4.0), "m9": (1.0, 9.0), "e4m9": (4.0, 9.0), "e9m4": (9.0, 4.0), "vac": (1.0, 1.0),
         "pec": None, "e2": (2.0, 1.0), "m2": (1.0, 2.0), "e1.5m3": (1.5, 3.0), "e3m1.5": (3.0, 1.5)}
DUAL = {"e4": "m4", "m4": "e4", "e9": "m9", "m9": "e9", "e4m9": "e9m4", "e9m4": "e4m9", "vac": "vac", "e2": "m2", "m2": "e2",
        "e1.5m3": "e3m1.5", "e3m1.5": "e1.5m3"}


def const(name):
    if name == "pec":
        return mat("pec")
    e, m = CONST[name]
    return materials.LorentzMaterial([(math.sqrt(e - 1) * 1e22, 1e22, 0)] if e != 1 else (), (m, 1e30) if m != 1 else ())


def any_mat(name):
    return mat(name) if name in MATS else const(name)


def n_of(name, k):
    if name == "pec":
        return 1.0
    if name in MATS:
        return index(name, k)
    return math.sqrt(CONST[name][0] * CONST[name][1])


def cases(tier):
    th = True
    deep = tier == "thorough"
    out = []
    mats = MAT + (["plasma2", "plasmamag", "const4"] if th else [])
    meds = MED + (["plasma01", "magvac"] if th else [])

    def add(part, label, **kw):
        out.append(dict(id="%s %s" % (part, label), part=part, **kw))
    for m in meds:
        for a, b in itertools.combinations_with_replacement(mats, 2):
            add("exchange", "%s|%s|%s" % (a, b, m), t=[a, b, m], r=[0.8, 1.3], L=2.9, l=2, stat=True)
            if th:
                add("exchange", "%s|%s|%s close" % (a, b, m), t=[a, b, m], r=[1.0, 0.4], L=1.7, l=4, stat=True)
    for t in [("drude", "ps", "eth"), ("pec", "mag", "vac"), ("plasma", "dia", "eth")]:
        for r1, r2 in [(1.0, 1.0), (0.3, 1.5), (2.0, 0.7), (3, 2)]:
            for gap in (0.2, 1.0, 8.0):
                for l in (1, 3, 5) + ((8, 10) if th else ()):
                    add("exchange", "%s r=%g,%g gap=%g l=%d" % (t, r1, r2, gap, l), t=list(t), r=[r1, r2], L=r1 + r2 + gap * min(r1, r2), l=l, stat=True)
    for a in mats:               # nearly equal spheres of one and the same material object
        for m in ("vac", "eth"):
            for d in (1e-3, 4e-5, 1e-7):
                add("exchange", "%s in %s near %g" % (a, m, d), t=[a, a, m], r=[1.0, 1.0 + 0.9 * d], L=2.2, l=2, stat=True, share=1)
    lay = [["ps", "drude"], ["pec", "mag"], ["mag", "drude", "ps"], ["drude", "vac", "drude"], ["drude", "ps", "mag", "ps"],
           ["mag", "ps", "drude", "vac", "ps"]]
    rr = {2: [0.6, 1.0], 3: [0.3, 0.5, 1.2], 4: [0.6, 0.75, 0.85, 1.0], 5: [0.5, 0.6, 0.75, 0.85, 1.0]}
    for m in ("vac", "eth"):
        for a, b in itertools.combinations_with_replacement(lay, 2):
            add("exchange", "%s|%s|%s" % (a, b, m), t=[a + [m], b + [m], m], r=[rr[len(a)], rr[len(b)]], L=2.9, l=3, stat=False)
        for a in lay:
            for b in ("drude", "pec", "mag"):
                add("exchange", "%s|%s|%s" % (a, b, m), t=[a + [m], b, m], r=[rr[len(a)], 0.9], L=2.6, l=3, stat=False)
        for a, b in itertools.product(lay[:3], lay[:3]):               # thin layers, cores of any size
            for s, ra in enumerate(THIN):
                rb = THIN[(s + 1) % len(THIN)]
                x, y = a[:2], b[:2]
                add("exchange", "thin %s %s|%s %s|%s" % (x, ra, y, rb, m), t=[x + [m], y + [m], m], r=[ra, rb], L=2.6, l=3, stat=False)
        for a, b in itertools.product(lay[:2], lay[:2]):
            add("coated", "%s|%s|%s" % (a, b, m), t=[a, b, m])
    cs = ["vac", "e4", "e9", "m4", "pec"]
    for a, b in itertools.product(cs, cs):
        for m in ("vac", "e2", "m2"):
            for ext in (1, 0):
                add("scale", "%s|%s|%s %s" % (a, b, m, "outside" if ext else "inside"), t=[a, b, m], ext=ext, l=3)
                if th:
                    add("scale", "%s|%s|%s %s l=6" % (a, b, m, "outside" if ext else "inside"), t=[a, b, m], ext=ext, l=6)
                if deep:
                    add("scale", "%s|%s|%s %s l=16" % (a, b, m, "outside" if ext else "inside"), t=[a, b, m], ext=ext, l=16)
    ds = ["vac", "e4", "m4", "m9", "e4m9", "e1.5m3"]
    for a, b in itertools.product(ds, ds):
        for m in ("vac", "e2", "m2", "e1.5m3"):
            for ext in (1, 0):
                add("dual", "%s|%s|%s %s" % (a, b, m, "outside" if ext else "inside"), t=[a, b, m], ext=ext)
    for m in meds[:4]:
        for a in mats:
            if a != "pec":
                add("own", "%s in %s" % (a, m), t=[a, m])
    for a in mats:
        if a != "pec":
            for b in mats:
                add("vanish", "%s next to %s" % (a, b), t=[a, b])
    for m in meds:
        for a in mats + ["const9", "drudemag"]:
            add("attract", "%s in %s" % (a, m), t=[a, m], l=3)
            if th:
                add("attract", "%s in %s l=6" % (a, m), t=[a, m], l=6)
            if deep:
                add("attract", "%s in %s l=10" % (a, m), t=[a, m], l=10)
    for m in ("vac", "e2", "m2"):
        for a in ("e4", "e9", "m4", "m9", "e4m9", "e9m4", "pec", "e1.5m3"):
            add("decay", "%s in %s" % (a, m), t=[a, m])
    for t in (["ps", "drude"], ["pec", "mag"], ["mag", "drude", "ps"]):
        for m in ("vac", "eth"):
            add("attract", "%s in %s" % (t, m), t=[t, m], l=2)
    return out


def run(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["_" + case["part"]](case, ctx)
    ctx.state(case["id"])


def make(r1, r2, L, a, b, m, l, ls=None, share=0):
    pool = {}

    def one(x):
        return pool.setdefault(x, any_mat(x)) if share else any_mat(x)

    def get(x):
        return [one(y) for y in x] if isinstance(x, list) else one(x)
    return geometry.SphereSphere(list(r1) if isinstance(r1, list) else r1, list(r2) if isinstance(r2, list) else r2, L, get(a), get(b), one(m),
                                 lmax=l, lssmax=ls or l, precision=1e-12)


def flat(*xs):
    out = []
    for x in xs:
        out += x if isinstance(x, list) else [x]
    return out


def tol(ks, names, radii):
    """rounding of double precision, worse where i_1 cancels"""
    return np.array([max([1e-8] + [60 * bessel_tol(k * r * n_of(n, k)) for n in names if n != "pec" for r in radii]) if k else 1e-8 for k in ks])


def same(ctx, got, want, ks, names, radii, key, what):
    t = tol(ks, names, radii)
    ctx.close(rav(got), rav(want), key, 0.0, t * np.maximum(np.abs(rav(want)), 1e-3 * np.abs(rav(want)).max()) + 2e-12, what)


def _exchange(case, ctx):
    (a, b, m), (r1, r2), L, l = case["t"], case["r"], case["L"], case["l"]
    names, radii = flat(a, b, m), flat(r1, r2, L)
    ks = np.array(KS)
    if case["stat"] and not metal(m):
        ks = np.append([0.0], ks)
    sh = case.get("share", 0)
    A, B = make(r1, r2, L, a, b, m, l, share=sh), make(r2, r1, L, b, a, m, l, share=sh)
    same(ctx, A.mSumme(ks), B.mSumme(ks), ks, names, radii, "sum", "spheres exchanged, %s" % case["id"])
    for mm in range(0, l + 1):
        same(ctx, A.single_m(mm, ks), B.single_m(mm, ks), ks, names, radii, "m", "spheres exchanged, m=%d, %s" % (mm, case["id"]))
    for n in (1, 3):
        same(ctx, A.mSum_roundtrips(ks, order=n), B.mSum_roundtrips(ks, order=n), ks, names, radii, "trips", "spheres exchanged, %d round trips" % n)
    ctx.op(6 + 2 * l)


def metal(name):
    """no static evaluation in a conducting medium"""
    return any(o[1] == 0 for o in MATS[name][1])


def _coated(case, ctx):
    a, b, m = case["t"]
    ks = np.array(KS)

    def obj(x, y, rx, ry):
        return geometry.CoatedSphereSphere(rx[0], rx[1], mat(x[0]), mat(x[1]), ry[0], ry[1], mat(y[0]), mat(y[1]), 2.6, mat(m), 3, 3)
    A, B = obj(a, b, (0.6, 1.0), (0.3, 0.8)), obj(b, a, (0.3, 0.8), (0.6, 1.0))
    A.precision = B.precision = 1e-12
    ctx.op(2)
    same(ctx, A.mSumme(ks), B.mSumme(ks), ks, flat(a, b, m), [0.6, 1.0, 0.3, 0.8, 2.6], "sum", "coated spheres exchanged")
    C = make([0.6, 1.0], [0.3, 0.8], 2.6, a + [m], b + [m], m, 3)
    ctx.op()
    same(ctx, A.mSumme(ks), C.mSumme(ks), ks, flat(a, b, m), [0.6, 1.0, 0.3, 0.8, 2.6], "layers", "coated spheres as layers")


def sizes(ext):
    return (0.8, 1.3, 2.9) if ext else (0.5, 2.0, 1.1)


def _scale(case, ctx):
    a, b, m = case["t"]
    r1, r2, L = sizes(case["ext"])
    ks = np.array([0.0, 0.02, 0.5, 3.0])
    base = make(r1, r2, L, a, b, m, case["l"], case["l"] + 1).mSumme(ks)
    ctx.op()
    for s in (0.01, 0.3, 2.0, 7.0, 50.0, 1000.0):
        got = make(s * r1, s * r2, s * L, a, b, m, case["l"], case["l"] + 1).mSumme(ks / s)
        ctx.op()
        same(ctx, got, base, ks, [a, b, m], [r1, r2, L], "factor %g" % s, "all lengths times %g" % s)


def _dual(case, ctx):
    a, b, m = case["t"]
    r1, r2, L = sizes(case["ext"])
    ks = np.array([0.02, 0.5, 3.0])
    A = make(r1, r2, L, a, b, m, 3, 4)
    B = make(r1, r2, L, DUAL[a], DUAL[b], DUAL[m], 3, 4)
    ctx.op(4)
    same(ctx, B.mSumme(ks), A.mSumme(ks), ks, [a, b, m], [r1, r2, L], "sum", "permittivities and permeabilities exchanged")
    same(ctx, B.mSum_oneRoundtrip(ks), A.mSum_oneRoundtrip(ks), ks, [a, b, m], [r1, r2, L], "one", "permittivities and permeabilities exchanged, one round trip")
    same(ctx, rav(B.mSumme_k0()), rav(A.mSumme_k0()), np.array([0.0]), [a, b, m], [r1, r2, L], "static", "permittivities and permeabilities exchanged, static")
    if case["ext"]:
        C = make([0.4, r1], [0.5, 0.9, r2], L, [b, a, m], [a, "e2", b, m], m, 3, 4)
        D = make([0.4, r1], [0.5, 0.9, r2], L, [DUAL[b], DUAL[a], DUAL[m]], [DUAL[a], "m2", DUAL[b], DUAL[m]], DUAL[m], 3, 4)
        ctx.op(2)
        same(ctx, D.mSumme(ks), C.mSumme(ks), ks, [a, b, m], [0.4, 0.5, r1, r2, L], "layered", "permittivities and permeabilities exchanged, layered")


def _own(case, ctx):
    a, m = case["t"]
    ks = np.array(KS)
    for other in ("drude", "pec", "mag"):
        want = make(1.0, 0.9, 2.5, a, other, m, 3).mSumme(ks)
        ctx.op()
        for radii in ([0.3, 1.0], [0.9, 1.0], [0.2, 0.5, 1.0], [0.1, 0.3, 0.7, 1.0]):
            mats = [a] * len(radii) + [m]
            names, rs = [a, other, m], radii + [0.9, 2.5]
            ctx.op(2)
            same(ctx, make(radii, 0.9, 2.5, mats, other, m, 3).mSumme(ks), want, ks, names, rs, "first", "first sphere as %d layers of %s" % (len(radii), a))
            same(ctx, make(0.9, radii, 2.5, other, mats, m, 3).mSumme(ks), want, ks, names, rs, "second", "second sphere as %d layers of %s" % (len(radii), a))
        # an outermost layer of the medium is no layer
        got = make([1.0, 1.2], 0.9, 2.5, [a, m, m], other, m, 3).mSumme(ks)
        ctx.op()
        same(ctx, got, want, ks, [a, other, m], [1.0, 1.2, 0.9, 2.5], "medium", "sphere in a shell of the medium")
        C = geometry.CoatedSphereSphere(0.4, 1.0, any_mat(a), any_mat(a), 0.3, 0.9, any_mat(other), any_mat(other), 2.5, any_mat(m), 3, 3)
        C.precision = 1e-12
        if other != "pec":
            ctx.op()
            same(ctx, C.mSumme(ks), want, ks, [a, other, m], [0.4, 1.0, 0.3, 0.9, 2.5], "coated", "coats of the own material")


def _vanish(case, ctx):
    a, b = case["t"]
    ks = np.array(KS + [20.0, 700.0])
    for (r1, r2, L, ext) in [(0.8, 1.3, 2.9, 1), (0.5, 2.0, 1.1, 0)]:
        full = np.abs(rav(make(r1, r2, L, "drude", "drude", a, 3).mSumme(ks))).max() if a != "drude" else 1.0
        for one, two, label in ((a, b, "first"), (b, a, "second")):
            G = make(r1, r2, L, one, two, a, 3, 4)
            ctx.op(3)
            got = rav(G.mSumme(ks))
            ctx.close(got, np.zeros(len(ks)), label + str(ext), 0.0, 1e-9 * max(full, 1e-3), "%s sphere made of the medium %s" % (label, a))
            ctx.close(rav(G.mSum_roundtrips(ks, order=3)), np.zeros(len(ks)), label + " trips" + str(ext), 0.0, 1e-9 * max(full, 1e-3),
                      "%s sphere made of the medium %s, 3 round trips" % (label, a))
            if metal(a):
                continue
            ctx.close(rav(G.mSumme_k0()), [0.0], label + " static" + str(ext), 0.0, 1e-10, "%s sphere made of the medium %s, static" % (label, a))


def _attract(case, ctx):
    a, m = case["t"]
    r = {2: [0.6, 1.0], 3: [0.3, 0.5, 1.0]}[len(a)] if isinstance(a, list) else 1.0
    mats = a + [m] if isinstance(a, list) else a
    ks = np.array([1e-3, 0.05, 0.2, 0.6, 1.1, 2.5, 6.0, 12.0, 30.0])
    if not isinstance(a, list) and not metal(m):
        ks = np.append([0.0], ks)
    prev = None
    for L in (2.02, 2.05, 2.1, 2.2, 2.4, 2.8, 3.5, 5.0, 8.0, 15.0, 40.0, 200.0):
        t = rav(make(r, r, L, mats, mats, m, case["l"]).mSumme(ks))
        ctx.op()
        noise = 1e-12 + 1e-9 * np.abs(t).max()
        ctx.check((t <= noise).all(), "negative", lambda: "identical spheres repel: %s at L=%g" % (t.tolist(), L))
        strong = (a != m) and np.abs(t).max() > 1e-9
        if strong and L <= 2.4:
            ctx.check(t.min() < -1e-12, "nonzero", "no interaction at L=%g" % L)
        if prev is not None:
            ctx.check((t >= prev - noise - 1e-9 * np.abs(prev).max()).all(), "distance",
                      lambda: "interaction grows with the distance at L=%g: %s after %s" % (L, t.tolist(), prev.tolist()))
        prev = t
    ctx.outcome("%.4g" % prev.min())


def _decay(case, ctx):
    a, m = case["t"]
    for L in (2.05, 2.4, 3.5, 8.0):
        ks = np.array([1e-3, 0.05, 0.2, 0.6, 1.1, 2.5, 6.0, 12.0, 30.0, 100.0])
        G = make(1.0, 1.0, L, a, a, m, 4)
        t = rav(G.mSumme(ks))
        ctx.op()
        tl = tol(ks, [a, m], [1.0, L]) * np.abs(t).max() + 1e-12
        ctx.check((t <= tl).all(), "negative", lambda: "identical spheres repel: %s at L=%g" % (t.tolist(), L))
        ctx.check(t[1] < -1e-10, "nonzero", "no interaction at L=%g" % L)
        ctx.check((np.diff(t) >= -tl[1:]).all(), "wavenumber", lambda: "interaction grows with the wavenumber at L=%g: %s" % (L, t.tolist()))
        ctx.outcome("%.4g" % t[1])

"""Expansions in round trips against traces of powers of the model matrix."""
import itertools
import warnings
import numpy as np
import mpmath as mp
import geometry
import thermodynamics
from .. import ref
from ..common import mat, build, geo, rgeo, rav
from .c08 import tol, make

ID = "C24"
TIMEOUT = 200
RULE = ("one case per geometry: every number of round trips, every azimuthal cut-off and every wavenumber array against "
        "-sum Tr M^n/n of the model matrices; one case per small matrix for the expansion itself; one case per thermodynamic "
        "object; non-trivial: traces different from zero")
BOUNDS = {"quick": "orders 1..9 and automatic x all azimuthal cut-offs x 8 wavenumber arrays (single, sorted, unsorted, repeated, decayed, "
                   "starting at zero) x 180 geometries (outside, inside, layered, coated; 6 truncations); all 2x2 matrices over 5 values and "
                   "all pairs of 2x2 matrices over 2 values with up to 40 round trips at 4 precisions; one slow among up to 1000 fast matrices or 300 fast wavenumbers; thermodynamic objects for 12 geometries x nmax 1..5 x slices",
          "thorough": "orders 1..12, truncations to 8, nmax 1..8"}
ASSUMPTIONS = ["accuracy 1e-8 relative to the sum of magnitudes, plus the rounding noise of C08",
               "automatic order: within 20 times the precision asked for, geometries with spectral radius below 0.8"]
TRIP = [("drude", "ps", "eth"), ("pec", "pec", "vac"), ("mag", "plasma01", "dia"), ("ps", "ps", "vac"), ("vac", "drude", "vac")]
TRUNC = [(1, 1), (1, 2), (2, 2), (2, 4), (3, 3), (4, 5)]
KS = [0.3, 0.02, 2.0]
VAL = (-0.6, -0.2, 0.0, 0.3, 0.7)


def cases(tier):
    th = True
    deep = tier == "thorough"
    out = []
    trip = TRIP
    if th:
        trip = TRIP + [("smith", "drude", "eth"), ("pec", "mag", "mag"), ("dia", "pec", "vac"), ("plasma01", "plasma01", "vac"), ("const4", "const9", "eth")]
    geos = []
    for lm, ls in TRUNC + [(6, 6), (8, 8)] if deep else TRUNC:
        for i, t in enumerate(trip):
            sizes = [(1.0, 1.2, 2.9), (0.4, 1.5, 2.2)] if th or i < 2 else [(1.0, 1.2, 2.9)]
            for r1, r2, L in sizes:
                geos.append(geo(r1, r2, L, *t, lm, ls))
            geos.append(geo(0.6, 2.0, 0.8, *t, lm, ls))
    lay = [["ps", "drude"], ["pec", "mag"], ["mag", "drude", "ps"]]
    rr = {2: [0.6, 1.0], 3: [0.3, 0.5, 1.2]}
    for a, b in itertools.product(lay, lay):
        geos.append(geo(rr[len(a)], rr[len(b)], 2.9, a + ["eth"], b + ["eth"], "eth", 2, 3))
    for g in geos:
        out.append({"id": "%s|%s|%s r=%s,%s L=%s l=%s,%s" % (g["mat1"], g["mat2"], g["mat3"], g["r1"], g["r2"], g["L"], g["lmax"], g["lssmax"]),
                    "part": "geo", "g": g, "orders": 12 if deep else 9,
                    "long": g["lmax"] == 2})
    two = [x for x in lay if len(x) == 2]
    for a, b in itertools.product(two, two):
        out.append({"id": "coated %s %s" % (a, b), "part": "geo", "coated": True, "orders": 6,
                    "g": geo([0.6, 1.0], [0.3, 0.8], 2.6, a + ["eth"], b + ["eth"], "eth", 2, 3)})
    for a in VAL:
        for b in VAL:
            out.append({"id": "matrices %g %g" % (a, b), "part": "mat", "a": [a, b]})
    out.append({"id": "matrix arrays", "part": "mats"})
    for i, t in enumerate(trip):
        for (r1, r2, L) in [(1.0, 1.2, 2.9), (0.6, 2.0, 0.8)]:
            out.append({"id": "thermodynamics %s L=%g" % (t, L), "part": "thermo", "g": geo(r1, r2, L, *t, 2, 2), "nmax": 8 if deep else 5})
    out.append({"id": "thermodynamics layered", "part": "thermo", "g": geo(rr[2], rr[3], 2.9, lay[0] + ["eth"], lay[2] + ["eth"], "eth", 2, 2), "nmax": 4})
    out.append({"id": "thermodynamics coated", "part": "thermo", "coated": True,
                "g": geo(rr[2], [0.3, 0.8], 2.6, lay[0] + ["eth"], lay[1] + ["eth"], "eth", 2, 2), "nmax": 4})
    return out


def run(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["_" + case["part"]](case, ctx)
    ctx.state(case["id"])


class Model:
    """traces of powers, per wavenumber and m"""

    def __init__(self, g, ks, orders):
        R = rgeo(g)
        self.tr, self.size, self.det, self.rho = {}, {}, {}, {}
        for k in ks:
            total = mp.mpf(0)
            rho = 0.0
            for m, M in ref.matrices(R, k).items():
                P = M.copy()
                for n in range(1, orders + 1):
                    t = sum(P[i, i] for i in range(P.rows))
                    self.tr[k, m, n] = float(t / n)
                    self.size[k, m, n] = float(sum(abs(P[i, i]) for i in range(P.rows)) / n)
                    P = P * M
                total += (1 if m == 0 else 2) * ref.lndet(M)
                E = mp.eig(M, left=False, right=False)
                rho = max([rho] + [float(abs(e)) for e in E])
            self.det[k], self.rho[k] = float(total), rho
        self.lmax = g["lmax"]

    def sum(self, k, order, mmax):
        return -sum((1 if m == 0 else 2) * self.tr[k, m, n] for m in range(0, min(mmax, self.lmax) + 1) for n in range(1, order + 1))

    def scale(self, k, order, mmax):
        return sum((1 if m == 0 else 2) * self.size[k, m, n] for m in range(0, min(mmax, self.lmax) + 1) for n in range(1, order + 1))


def _geo(case, ctx):
    g, N = case["g"], case["orders"]
    lmax = g["lmax"]
    mod = Model(g, KS, N)
    rt = {k: tol(g, k) for k in KS}
    solid = not (case.get("coated") or isinstance(g["mat1"], list) or isinstance(g["mat2"], list))
    far = 3000.0
    arrays = [[KS[0]], [KS[2]], KS, sorted(KS), sorted(KS, reverse=True), [KS[0], KS[0]], [KS[1], KS[2], KS[1]]]

    def obj(**kw):
        G = make(case, **({} if case.get("coated") else kw))
        for a, v in kw.items():
            if case.get("coated") and a == "precision":
                G.precision = v
        return G

    def want(arr, order, mmax):
        return (np.array([mod.sum(k, order, mmax) for k in arr]),
                np.array([rt[k] * mod.scale(k, order, mmax) for k in arr]) + 1e-14)
    for arr in arrays:
        a = np.array(arr)
        for n in range(1, N + 1):
            w, t = want(arr, n, lmax)
            ctx.op()
            ctx.close(rav(obj().mSum_roundtrips(a, order=n)), w, "order %d at %s" % (n, arr), 0, t,
                      "%d round trips at k=%s" % (n, arr))
        for mmax in range(1, lmax + 1):
            w, t = want(arr, 1, mmax)
            ctx.op()
            ctx.close(rav(obj().mSum_oneRoundtrip(a, mmax=mmax)), w, "mmax %d at %s" % (mmax, arr), 0, t,
                      "single round trip up to m=%d at k=%s" % (mmax, arr))
        w, t = want(arr, 1, lmax)
        for prec in (1e-3, 1e-14):
            ctx.op()
            ctx.close(rav(obj(precision=prec).mSum_oneRoundtrip(a)), w, "one automatic at %s" % arr, 0, t,
                      "single round trip at k=%s, precision %g" % (arr, prec))
        det = np.array([mod.det[k] for k in arr])
        rho = np.array([mod.rho[k] for k in arr])
        if rho.max() < 0.8:
            for prec in (1e-4, 1e-9):
                slack = 20 * prec * np.abs(det) + np.array([rt[k] * abs(d) for k, d in zip(arr, det)]) + 1e-13
                ctx.op()
                ctx.close(rav(obj(precision=prec).mSum_roundtrips(a)), det, "automatic %g at %s" % (prec, arr), 0, slack,
                          "automatic number of round trips at k=%s, precision %g" % (arr, prec))
                if solid:
                    ctx.op()
                    ctx.close(rav(obj(precision=prec, evaluation="trace").mSumme(a)), det, "trace %g at %s" % (prec, arr), 0, slack,
                              "trace evaluation at k=%s, precision %g" % (arr, prec))
    # wavenumbers at which the interaction has decayed must not disturb the others
    for arr in ([KS[0], far], [far, KS[0]], [far]):
        a = np.array(arr)
        w = np.array([mod.sum(k, 2, lmax) if k != far else 0.0 for k in arr])
        t = np.array([rt[k] * mod.scale(k, 2, lmax) if k != far else 0.0 for k in arr]) + 1e-14
        ctx.op()
        ctx.close(rav(obj().mSum_roundtrips(a, order=2)), w, "decayed at %s" % arr, 0, t, "2 round trips at k=%s" % arr)
        det = np.array([mod.det[k] if k != far else 0.0 for k in arr])
        if mod.rho[KS[0]] < 0.8:
            ctx.op()
            ctx.close(rav(obj(precision=1e-6).mSum_roundtrips(a)), det, "decayed automatic at %s" % arr, 0,
                      2e-5 * np.abs(det) + 1e-13, "automatic number of round trips at k=%s" % arr)
    if mod.rho[KS[0]] < 0.8 and case.get("long"):                  # one slow wavenumber among many fast ones
        for at in (0, 300):
            fast = np.linspace(3.0, 5.0, 300) / (g["L"] if np.ndim(g["r1"]) else abs(g["L"] - g["r1"] - g["r2"]))
            a = np.insert(fast, at, KS[0])
            for prec in (1e-4, 1e-9):
                det, slack = mod.det[KS[0]], (20 * prec + rt[KS[0]]) * abs(mod.det[KS[0]]) + 1e-13
                ctx.op()
                ctx.close(rav(obj(precision=prec).mSum_roundtrips(a))[at], det, "long array %g" % prec, 0, slack,
                          "automatic number of round trips at %g among 300 quickly converging wavenumbers" % KS[0])
                if solid:
                    ctx.op()
                    ctx.close(rav(obj(precision=prec, evaluation="trace").mSumme(a))[at], det, "long array trace %g" % prec, 0, slack,
                              "trace evaluation at %g among 300 quickly converging wavenumbers" % KS[0])
    if solid:                                                     # arrays starting at zero: the static matrices
        G = build(g)
        P, stat, size = [], np.zeros(N + 1), np.zeros(N + 1)
        for m in range(0, lmax + 1):
            E, B = [np.asarray(x, dtype=float) for x in G.blockmatrices_k0(m)]
            ctx.op()
            for X in (E, B):
                Q = X.copy()
                for n in range(1, N + 1):
                    stat[n] -= (1 if m == 0 else 2) * np.trace(Q) / n
                    size[n] += 2 * np.abs(np.diag(Q)).sum() / n
                    Q = Q @ X
        arr = [0.0, KS[0], KS[2]]
        for n in range(1, N + 1):
            w, t = want(arr[1:], n, lmax)
            ctx.op()
            ctx.close(rav(obj().mSum_roundtrips(np.array(arr), order=n)), np.append(stat[1:n + 1].sum(), w), "static, order %d" % n, 0,
                      np.append(1e-9 * size[1:n + 1].sum() + 1e-14, t), "%d round trips from zero on" % n)
        w, t = want(arr[1:], 1, lmax)
        ctx.op()
        ctx.close(rav(obj().mSum_oneRoundtrip(np.array(arr))), np.append(stat[1], w), "static, one", 0,
                  np.append(1e-9 * size[1] + 1e-14, t), "single round trip from zero on")


def _expand(ctx, G, A, key):
    """A: array of matrices"""
    want, P, size = 0, A.copy(), 0
    prec = G.precision
    for n in range(1, 41):
        want = want - np.einsum("ijj->i", P) / n
        size = size + np.abs(np.einsum("ijj->ij", P)).sum(axis=1) / n
        if n < 7 or n in (9, 10, 17, 40):       # the number asked for counts, whatever the precision
            for q in (prec,) if n in (1, 2) else (prec, 0.1) if n < 7 else (prec, 0.5, 1e-3, 1e-6):
                G.precision = q
                ctx.op()
                ctx.close(rav(G.arbitrary_roundtrips(A.copy(), n, 0)), want, key, 0, 1e-12 * size + 1e-15, "%d round trips of %s" % (n, A.tolist()))
        P = A @ P
    G.precision = prec


def _mat(case, ctx):
    G = build(geo(1.0, 1.2, 2.9, "ps", "ps", "vac", 1, 1))
    a, b = case["a"]
    for c, d in itertools.product(VAL, VAL):
        A = np.array([[[a, b], [c, d]]])
        _expand(ctx, G, A, "%g %g" % (c, d))
        rho = np.abs(np.linalg.eigvals(A[0])).max()
        # traces of one sign, as the round trips between two spheres give
        if rho < 0.7 and min(np.linalg.eigvals(A[0]).real) >= 0 and np.isreal(np.linalg.eigvals(A[0])).all() and rho > 0:
            for prec in (1e-4, 1e-9):
                G.precision = prec
                det = np.linalg.slogdet(np.eye(2) - A[0])[1]
                ctx.op()
                ctx.close(rav(G.arbitrary_roundtrips(A, "automatic", 0)), [det], "automatic %g %g" % (c, d), 20 * prec, 1e-14,
                          "automatic number of round trips of %s" % A.tolist())


def _mats(case, ctx):
    G = build(geo(1.0, 1.2, 2.9, "ps", "ps", "vac", 1, 1))
    two = [np.array(x).reshape(2, 2) for x in itertools.product((0.3, -0.2), repeat=4)]
    for A, B in itertools.product(two, two):
        _expand(ctx, G, np.array([A, B]), "pair")
    for n in (1, 3, 4):
        for s in range(6):
            A = 0.3 * np.cos(np.arange(2 * n * n) * (s + 1.0)).reshape(2, n, n)
            _expand(ctx, G, A, "size %d" % n)
    # one slowly converging matrix among many quickly converging ones, at any place
    for n, many, prec in itertools.product((1, 2, 3), (1, 10, 100, 1000), (1e-4, 1e-9)):
        slow, fast = 0.6 * np.eye(n), 0.02 * np.eye(n)
        for at in sorted({0, many // 2, many}):
            A = np.array([fast] * at + [slow] + [fast] * (many - at))
            G.precision = prec
            ctx.op()
            ctx.close(rav(G.arbitrary_roundtrips(A.copy(), "automatic", 0)), np.linalg.slogdet(np.eye(n) - A)[1], "slow one among %d" % many, 20 * prec,
                      1e-14, "automatic number of round trips, slow matrix at place %d of %d" % (at, many + 1))


def _thermo(case, ctx):
    g = case["g"]

    def obj(**kw):
        return make(case, **({} if case.get("coated") else kw))
    for dT in (0.4, 1.1):
        ns = [1e-10] + [dT * n for n in range(1, case["nmax"] + 1)]
        mod = Model(g, ns, 1)
        terms = np.array([mod.sum(k, 1, g["lmax"]) for k in ns]) * np.array([0.5] + [1.0] * (len(ns) - 1))
        slack = np.array([tol(g, k) * mod.scale(k, 1, g["lmax"]) for k in ns]) + 1e-14
        exact0 = 0.5 * rav(obj().mSum_oneRoundtrip(np.array([1e-10])))[0]
        ctx.close(exact0, terms[0], "static term", 2e-3, 1e-9, "single round trip at k=1e-10")
        terms[0], slack[0] = exact0, 1e-9 * abs(exact0) + 1e-14
        for nmax in range(1, case["nmax"] + 1):
            for step in (1, 2, 3, 50):
                ctx.op()
                o = thermodynamics.oneRoundtrip(dT, nmax, 2 * dT, obj())
                ctx.close(rav(o.get_f_matsubaras(0, step)), terms[:nmax + 1], "terms nmax=%d slice=%d" % (nmax, step), 0, slack[:nmax + 1],
                          "single-round-trip terms, nmax %d in slices of %d" % (nmax, step))
            for top in range(1, nmax + 1):
                ctx.op()
                o = thermodynamics.oneRoundtrip(dT, nmax, top * dT, obj())
                w = [i * dT * terms[:nmax + 1:i].sum() for i in range(1, top + 1)]
                t = [i * dT * slack[:nmax + 1:i].sum() for i in range(1, top + 1)]
                got = rav(o.free_energy())
                ctx.close(got, w, "energy nmax=%d Tmax=%d" % (nmax, top), 0, t, "single-round-trip free energy")
                ctx.close(rav(o.free_energy()), got, "energy again", 1e-12, 0, "single-round-trip free energy repeated")
                if top >= 2:
                    ctx.close(rav(o.entropy()), -np.gradient(np.array(w), dT), "entropy nmax=%d Tmax=%d" % (nmax, top), 1e-6,
                              10 * sum(t) / dT, "single-round-trip entropy")
        if case.get("coated"):
            continue
        # geometry set up for trace evaluation
        prec = 1e-8
        det = Model(g, ns[1:], 1)
        if max(det.rho.values()) >= 0.8:
            continue
        w = np.array([det.det[k] for k in ns[1:]])
        layered = isinstance(g["mat1"], list)
        for nmax in range(1, case["nmax"] + 1):
            for step in (1, 2, 50):
                ctx.op()
                G = obj(precision=prec, evaluation="trace")
                o = thermodynamics.finiteT(dT, nmax, 2 * dT, G)
                got = rav(o.get_f_matsubaras(0, step))
                z = rav(obj(precision=prec, evaluation="trace").mSumme(np.array([1e-10])) if layered else obj(precision=prec).mSumme_k0())[0]
                ctx.close(got, np.append(0.5 * z, w[:nmax]), "trace nmax=%d slice=%d" % (nmax, step), 30 * prec + 1e-7, 1e-12,
                          "terms with trace evaluation, nmax %d in slices of %d" % (nmax, step))

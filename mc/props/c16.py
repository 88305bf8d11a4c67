"""Plate-plate interaction."""
import itertools
import math
import warnings
import numpy as np
import PFA
import raw_PFA
import scattering
from .. import lifshitz as li
from ..common import mat, rmat

ID = "C16"
TIMEOUT = 200
RULE = ("one case per ordered pair of plates, medium and group of quantities: both implementations, with and without shielding, "
        "against trapezoidal integration on a logarithmic grid; non-trivial: reflection coefficients different from zero")
BOUNDS = {"quick": "all ordered pairs over 9 plate materials x 4 media: Fresnel coefficients on a 9x9 wavenumber grid, high-temperature value "
                   "at 3 distances; all pairs: free energy and pressure at 1 (T, L), pairs over 6 materials at 3 (T, L) of PFA and 1 of raw_PFA; "
                   "4 further (T, L) at short distance and with no or one finite term, 5 with up to 2000 terms for 4 triples; integrands of all pairs on a 4x4x2 grid; "
                   "zero temperature for 8 triples; Matsubara terms for arrays of 1..4 wavenumbers",
          "thorough": "all quantities for 9 materials x 4 media, 6 (T, L), zero temperature for 40 triples"}
ASSUMPTIONS = ["absolute accuracy 1e-7 per term, the accuracy of the adaptive quadrature in /repo",
               "the term at zero is taken at a wavenumber of at most 1e-10"]
P = ["vac", "ps", "drude", "plasma", "pec", "mag", "smith", "const9", "dia"]
SIX = ["ps", "drude", "plasma", "pec", "mag", "smith"]
MED = ["vac", "eth", "magvac"]
ZT = [("pec", "pec", "vac"), ("drude", "ps", "vac"), ("ps", "drude", "vac"), ("plasma", "drude", "eth"), ("mag", "pec", "vac"),
      ("const4", "const9", "eth"), ("smith", "ps", "eth"), ("ps", "ps", "magvac")]
TL = [(0.804, 1.0), (2.0, 0.6), (0.5, 4.0)]
TLX = [(20.0, 0.02), (30.0, 1.0), (12.0, 1.6), (4.0, 0.15)]     # short distance, no and one finite term
MANY = [("pec", "pec", "vac"), ("drude", "ps", "vac"), ("plasma", "drude", "eth"), ("mag", "smith", "magvac")]   # many terms
TL2 = [(1.5, 0.3), (6.0, 1.0), (0.3, 2.0)]
DIST = [0.1, 0.7, 4.0]
KQ = [1e-8, 1e-3, 0.05, 0.4, 1.0, 3.0, 20.0, 300.0, 1e4]


def cases(tier):
    th = True
    deep = tier == "thorough"
    media = MED + ["const4"] if th else MED
    out = []
    for a, b in itertools.product(P, P):
        for m in media:
            out.append({"id": "static %s|%s|%s" % (a, m, b), "part": "static", "t": [a, b, m]})
    for a in P:
        for m in media:
            out.append({"id": "fresnel %s in %s" % (a, m), "part": "fresnel", "t": [a, m]})
    six = P if th else SIX
    for a, b in itertools.product(six, six):
        for m in media:
            for T, L in (TL + TL2 if deep else TL if a in SIX and b in SIX else TL[:1]):
                out.append({"id": "T=%g L=%g %s|%s|%s" % (T, L, a, m, b), "part": "finite", "mod": "PFA", "t": [a, b, m], "T": T, "L": L})
            out.append({"id": "raw %s|%s|%s" % (a, m, b), "part": "finite", "mod": "raw_PFA", "t": [a, b, m], "T": 3.0, "L": 2.0})
    zt = [list(t) for t in ZT]
    if deep:
        zt += [list(t) for t in itertools.product(["ps", "drude", "pec", "mag"], ["plasma", "smith", "ps", "pec"], ["vac", "eth"])
               if tuple(t) not in ZT]
    for i, (a, b) in enumerate(itertools.product(SIX, SIX)):
        m = media[i % len(media)]
        for T, L in TLX:
            for mod in ("PFA", "raw_PFA") if T * L > 8 else ("PFA",):
                out.append({"id": "%s T=%g L=%g %s|%s|%s" % (mod, T, L, a, m, b), "part": "finite", "mod": mod, "t": [a, b, m], "T": T, "L": L})
    for a, b, m in MANY:
        for mod, T, L in (("PFA", 0.05, 0.2), ("PFA", 0.02, 1.0), ("PFA", 0.3, 0.05), ("raw_PFA", 0.1, 0.5), ("raw_PFA", 0.05, 0.7)):
            out.append({"id": "%s T=%g L=%g %s|%s|%s" % (mod, T, L, a, m, b), "part": "finite", "mod": mod, "t": [a, b, m], "T": T, "L": L,
                        "heavy": 1})
    for a, b in itertools.product(P, P):
        for m in media:
            out.append({"id": "integrand %s|%s|%s" % (a, m, b), "part": "integrand", "t": [a, b, m]})
    for t in zt:
        for mod in ("PFA", "raw_PFA"):
            out.append({"id": "T=0 %s %s" % (mod, t), "part": "zero", "mod": mod, "t": t, "heavy": 1})
    for a, b, m in ZT:
        out.append({"id": "terms %s|%s|%s" % (a, m, b), "part": "terms", "t": [a, b, m]})
    return out


def obj(mod, t):
    a, b, m = t
    return {"PFA": PFA, "raw_PFA": raw_PFA}[mod].SphereSpherePFA(mat(a), mat(b), mat(m))


def close(ctx, got, want, key, n, what):
    ctx.close(np.ravel(got), [want], key, 2e-6, 1e-7 * n, what)


def run(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        _run(case, ctx)
    ctx.state(case["id"])


def _run(case, ctx):
    t = case["t"]
    p = case["part"]
    if p == "fresnel":
        s = scattering.scattering(mat(t[0]), mat(t[1]))
        for q in KQ:
            for k in KQ:
                ctx.op()
                got = s.fresnel(q, k)
                want = li.fresnel(rmat(t[0]), rmat(t[1]), np.array(q), np.array(k))
                for i in (0, 1):
                    ctx.close(np.ravel(got[i]), np.ravel(want[i]), "fresnel %g %g %d" % (q, k, i), 1e-7, 1e-11,
                              "%s reflection at k_perp=%g k=%g" % (("TE", "TM")[i], q, k))
        if t[0] != "pec":
            ks = np.array(KQ)
            got = s.fresnel(0.7, ks)
            want = li.fresnel(rmat(t[0]), rmat(t[1]), np.array(0.7), ks)
            ctx.op()
            for i in (0, 1):
                ctx.close(got[i], want[i], "fresnel array %d" % i, 1e-7, 1e-11, "reflection for an array of wavenumbers")
        return
    r = [rmat(x) for x in t]
    if p == "integrand":
        o, w = obj("PFA", t), obj("raw_PFA", t)
        for q, k, L in itertools.product((1e-3, 0.3, 2.0, 15.0), (1e-9, 0.02, 0.8, 6.0), (0.05, 1.0)):
            kap, tr = li.trips(*r, q, k, L)
            if max(abs(e) for e in tr) > 1 - 1e-7:
                continue
            te = [math.log1p(-e) for e in tr]
            pe = [-2 * kap * e / (1 - e) for e in tr]
            at = 1e-10 / min(1 - e for e in tr)
            ctx.op(5)
            k1 = "%g %g %g" % (q, k, L)
            ctx.close(np.ravel(o.roundTrips(q, k, L)), te, "trips " + k1, 1e-7, at, "round trips by polarisation at " + k1)
            ctx.close(np.ravel(w.roundTrips(q, k, L)), te, "raw trips " + k1, 1e-7, at, "round trips, raw_PFA, at " + k1)
            ctx.close(np.ravel(o.roundTrip(q, k, L)), [sum(te)], "trip " + k1, 1e-7, at, "round trip at " + k1)
            ctx.close(np.ravel(o.pressureRoundTrips(q, k, L)), pe, "pressures " + k1, 1e-7, 2 * kap * at, "pressure by polarisation at " + k1)
            ctx.close(np.ravel(w.pressureRoundTrips(q, k, L)), pe, "raw pressures " + k1, 1e-7, 2 * kap * at, "pressure, raw_PFA, at " + k1)
            ctx.close(np.ravel(o.pressureRoundTrip(q, k, L)), [sum(pe)], "pressure " + k1, 1e-7, 2 * kap * at, "pressure at " + k1)
        return
    if p == "static":
        for L in DIST:
            want = li.free_energy(*r, math.inf, L)
            for mod in ("PFA", "raw_PFA"):
                o = obj(mod, t)
                ctx.op(2)
                close(ctx, o.planeplaneFreeEnergyHT(L), want, "%s L=%g" % (mod, L), 1, "high-temperature value, %s" % mod)
                close(ctx, o.planeplaneFreeEnergyHT(L, n0_shielding=True), 0.0, "%s shielded L=%g" % (mod, L), 0, "shielded, %s" % mod)
            ctx.op(2)
            close(ctx, obj("PFA", t).planeplaneFreeEnergy(np.inf, L), want, "T=inf L=%g" % L, 1, "free energy at infinite temperature")
            close(ctx, obj("PFA", t).planeplaneFreeEnergy(np.inf, L, n0_shielding=True), 0.0, "T=inf shielded L=%g" % L, 0, "shielded")
    elif p == "finite":
        o, T, L = obj(case["mod"], t), case["T"], case["L"]
        # the zeroth term is taken at a small wavenumber: half the change of the model down to zero is allowed for
        n = T * (1 + 2 * int(20 / (T * L))) + 0.5e7 * T * abs(sum(li.term(*r, 1e-10, L)) - sum(li.term(*r, li.ZERO, L)))
        full, sh = li.free_energy(*r, T, L), li.free_energy(*r, T, L, True)
        ctx.op(4)
        close(ctx, o.planeplaneFreeEnergy(T, L), full, "free energy", n, "free energy per area")
        close(ctx, o.planeplaneFreeEnergy(T, L, True), sh, "free energy shielded", n, "free energy with shielding")
        pf, ps = li.pressure(*r, T, L), li.pressure(*r, T, L, True)
        close(ctx, o.planeplanePressure(T, L), pf, "pressure", n, "pressure")
        close(ctx, o.planeplanePressure(T, L, True), ps, "pressure shielded", n, "pressure with shielding")
        h = 1e-4 * L            # the model itself: pressure = -dF/dL, symmetric
        ctx.close(-(li.free_energy(*r, T, L + h) - li.free_energy(*r, T, L - h)) / (2 * h), pf, "model", 1e-5, 1e-9, "model: -dF/dL")
        ctx.close(li.free_energy(r[1], r[0], r[2], T, L), full, "model symmetric", 1e-9, 1e-15, "model: exchange of plates")
    elif p == "zero":
        o = obj(case["mod"], t)
        for L in (0.5, 1.3):
            want = li.free_energy(*r, 0, L)
            ctx.op(2)
            ctx.close(np.ravel(o.planeplaneFreeEnergy(0, L)), [want], "L=%g" % L, 1e-5, 1e-6, "zero-temperature energy per area")
            ctx.close(np.ravel(o.planeplane_e0(L)), [want], "e0 L=%g" % L, 1e-5, 1e-6, "planeplane_e0")
            if t == ["pec", "pec", "vac"]:
                ctx.close(want, -math.pi**3 / (360 * L**3), "model L=%g" % L, 1e-7, 0, "model against Casimir's result")
    else:
        for ks in ([1e-10], [1e-10, 0.5], [1e-10, 0.8, 1.6, 2.4], [0.7, 0.2], [0.3]):
            for L in (0.4, 1.5):
                for shield in (False, True):
                    te = [li.term(*r, k, L) for k in ks]
                    a = np.array(ks)
                    ctx.op(2)
                    got = np.asarray(obj("PFA", t).get_f_matsubaras(0.8, L, a, shield))
                    w = np.array(te).T
                    w[:, 0] *= 0 if shield else 0.5
                    ctx.close(got, w, "terms %s" % ks, 2e-6, 1e-7, "polarisation-resolved terms at %s" % ks)
                    got = np.asarray(obj("raw_PFA", t).get_f_matsubaras(0.8, L, a, shield))
                    w = np.array(te).sum(axis=1)
                    if shield:
                        w[0] = 0
                    ctx.close(got, w, "raw terms %s" % ks, 2e-6, 1e-7, "terms at %s" % ks)
                    if ks[0] == 1e-10:
                        w[0] = 0 if shield else sum(li.term(*r, li.ZERO, L))
                        got = np.asarray(obj("raw_PFA", t).get_f_matsubaras(0.8, L, np.array([0.0] + ks[1:]), shield))
                        ctx.close(got, w, "raw terms 0 %s" % ks, 2e-6, 1e-7, "terms at zero and %s" % ks[1:])
                        w = np.array([li.term(*r, li.ZERO, L)] + te[1:]).T
                        w[:, 0] *= 0 if shield else 0.5
                        got = np.asarray(obj("PFA", t).get_f_matsubaras(0.8, L, np.array([0.0] + ks[1:]), shield))
                        ctx.close(got, w, "terms 0 %s" % ks, 2e-6, 1e-7, "polarisation-resolved terms at zero and %s" % ks[1:])

"""Scattering coefficients of solid spheres and cavities."""
import numpy as np
import mpmath as mp
import scattering
from .. import ref
from ..common import MATS, mat, rmat, index, bessel_tol

ID = "C04"
TIMEOUT = 200
RULE = ("one case per ordered pair of materials, inside or outside: every radius, wavenumber, maximal "
        "order, lowest order and polarisation; non-trivial: the coefficient differs from case to case")
BOUNDS = {"quick": "17 materials as sphere x 16 as medium (and vice versa for cavities), 4 radii, 11 wavenumbers "
                   "1e-6..60, orders 1..7 with every lowest order, 1..30 for two radii; orders to 100, wavenumbers 1e-9..1300 and radii 1e-3..77 for 6 pairs",
          "thorough": "the same with 7 radii, 25 wavenumbers, orders 1..12 with every lowest order, 1..60 for three radii"}
ASSUMPTIONS = ["mc/ref.py solves the boundary conditions correctly (40 digits)",
               "accuracy of scaled coefficients: 1e-9 plus the rounding noise of the closed form of i_1"]


def kgrid(tier):
    k = [1e-6, 3e-4, 1.3e-3, 0.011, 0.07, 0.3, 1.0, 2.9, 7.0, 21.0, 60.0]
    if tier == "thorough":
        k = sorted(k + [1e-9, 1e-7, 1e-5, 9e-4, 1e-3, 5e-3, 0.04, 0.15, 0.6, 1.7, 4.4, 11.0, 33.0, 99.0])
    return k


def cases(tier):
    names = list(MATS)
    out = []
    for kind in ("ext", "int"):
        for a in names:          # the medium of the incoming wave: never a perfect conductor
            for b in names:
                if a == "pec":
                    continue
                out.append({"id": "%s %s in %s" % ((kind, b, a) if kind == "ext" else (kind, a, b)),
                            "kind": kind, "host": a, "other": b, "tier": tier})
    # high orders, large and small arguments
    pairs = [("vac", "drude"), ("eth", "ps"), ("mag", "plasma01"), ("vac", "pec"), ("ps", "vac"), ("drude", "mag")]
    for kind in ("ext", "int"):
        for a, b in pairs if tier == "quick" else [(a, b) for a in names for b in names if a != "pec"]:
            for r in (1e-3, 0.3, 6, 77.0):
                out.append({"id": "high %s %s in %s r=%g" % (kind, b, a, r) if kind == "ext" else
                            "high %s %s in %s r=%g" % (kind, a, b, r), "kind": kind, "host": a, "other": b, "tier": tier, "high": r})
    return out


def noise(x, l):
    """error of scaled coefficients caused by the cancellation in i_1 (and i_0)"""
    return 20 * bessel_tol(x) if l <= 2 else 1e-9


def compare(ctx, got, rows, lmin, lmax, xs, what, key, slope=None):
    """got (3, 1, n); rows from the model for l = 1..; compared in units of the model's scale"""
    got = np.asarray(got, dtype=float)
    if not ctx.check(got.shape == (3, 1, lmax - lmin + 1), key, "%s: shape %s" % (what, got.shape)):
        return
    lns = np.array([float(mp.log(rows[l - 1][2])) for l in range(lmin, lmax + 1)])
    for p, pol in enumerate(("TE", "TM")):
        want = np.array([float(rows[l - 1][p] / rows[l - 1][2]) for l in range(lmin, lmax + 1)])
        with np.errstate(all="ignore"):
            g = got[p, 0] * np.exp(got[2, 0] - lns)
        at = np.array([sum(noise(x, l) for x in xs) for l in range(lmin, lmax + 1)])
        if slope is not None:      # change with the logarithm of a radius: what rounding is amplified to
            at = at + np.array([slope[l - 1][p] * (1e-13 + (20 * max(bessel_tol(x) for x in xs) if l <= 2 else 0))
                                for l in range(lmin, lmax + 1)])
        # the logarithmic scale itself is only known to eps*|ln|
        rt = 1e-9 + 1e-13 * np.abs(lns).max() + (20 * max(bessel_tol(x) for x in xs) if lmin <= 2 else 0)
        ctx.close(g, want, key, rt, at, "%s %s, orders %d..%d" % (what, pol, lmin, lmax))


def run(case, ctx):
    tier, host, other = case["tier"], case["host"], case["other"]
    lbig, lsm = (30, 7) if tier == "quick" else (60, 12)
    radii = [0.08, 1, 2.7, 19.0] if tier == "quick" else [0.01, 0.08, 0.5, 1, 2.7, 9.3, 19.0]
    ext = case["kind"] == "ext"
    ks = kgrid(tier)
    if "high" in case:
        ks = [1e-9, 1e-7, 1e-4, 1e-3, 0.002, 0.04, 0.16, 0.7, 1.9, 5.1, 12.0, 37.0, 110.0, 410.0, 1300.0]
        radii, lbig = [case["high"]], 100

    def call(lmin, lm, kk, r):
        ctx.op()
        if ext:
            return np.asarray(scattering.scattering(mat(other), mat(host)).mie(kk, lmin, lm, r))
        return np.asarray(scattering.scattering(mat(host), mat(other)).mie_internal(kk, lmin, lm, r))
    for r in radii:
        lmax = lbig if "high" in case or r in (1, 2.7, 0.08)[:1 if tier == "quick" else 3] else lsm
        full = call(1, lmax, np.array(ks), r)
        if not ctx.check(full.shape == (3, len(ks), lmax), "shape", "shape %s" % (full.shape,)):
            continue
        for j, k in enumerate(ks):
            if ext:
                rows = ref.mie_ext_all(rmat(other), rmat(host), k, lmax, r)
            else:
                rows = ref.mie_int_all(rmat(host), rmat(other), k, lmax, r)
            xs = [k * r * index(host, k)]
            if other != "pec":
                xs.append(k * r * index(other, k))
            ctx.state(case["id"], r, k)
            karr = np.array([k])
            what = "%s r=%g k=%g" % (case["id"], r, k)
            compare(ctx, full[:, j:j + 1, :], rows, 1, lmax, xs, what, "full")
            compare(ctx, call(1, 1, karr, r), rows, 1, 1, xs, what, "l=1")
            if "high" in case:
                for a, b in ((1, 11), (1, 37), (2, 64), (31, 32), (50, 90), (99, 99)):
                    compare(ctx, call(a, b, karr, r), rows, a, b, xs, what, "high")
            if r == 2.7:
                compare(ctx, call(1, lmax, karr, r), rows, 1, lmax, xs, what, "single")
                for lmin in range(1, lsm + 1):
                    compare(ctx, call(lmin, lsm, karr, r), rows, lmin, lsm, xs, what, "lmin")
                    if lmin % 3 == 2:
                        compare(ctx, call(lmin, lmin, karr, r), rows, lmin, lmin, xs, what, "lmin")

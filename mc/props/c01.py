"""Bessel functions against 40-digit values."""
import numpy as np
import bessel_sk
from .. import ref
from ..common import bessel_tol

ID = "C01"
TIMEOUT = 200
RULE = ("one case per argument: every maximal order of the list, every order below it, every range "
        "of orders, regular and irregular function, alone and together with arguments of the other "
        "regimes; non-trivial: the returned logarithms are finite and differ between cases")
BOUNDS = {"quick": "246 arguments 1e-12..1e5 incl. both sides of every regime switch; lmax 0..20 each, 24, 30, 31, 40, 60, 90, 150, 250 (up to 60 above x = 1e4)",
          "thorough": "643 arguments 1e-12..1e5 and every lmax 0..60, 90, 150, 250"}
ASSUMPTIONS = ["mpmath at 40 digits evaluates the defining series and recurrences correctly",
               "tolerance: 1e-10, widened to 4e-15/x^3 for l <= 1 between x = 1e-3 and 0.05, where "
               "the closed forms lose digits by design"]
SPECIAL = [1e-12, 1e-9, 1e-6, 9.9e-4, 9.99999e-4, 1e-3, 1.000001e-3, 1.1e-3, 2e-3, 5e-3, 9.9e-3,
           0.01, 0.0101, 0.05, 0.099, 0.1, 0.101, 0.5, 0.999, 1.0, 1.001, 2.0, 5.0, 9.99, 10.0, 10.01, 20.0,
           49.9, 50.0, 50.1, 79.9, 80.0, 80.1, 99.9, 100.0, 100.1, 139.9, 140.1, 150.0, 199.0, 200.0, 201.0,
           299., 301., 350.0, 499., 501., 700.0, 709.0, 710.0, 745.0, 746.0, 783.0, 785.0, 999.0, 1000.0, 1001.0, 2000.0,
           4999.0, 5000.0, 5001.0, 10000.0, 3.1e4, 1e5]


def grid(tier):
    n = 193 if tier == "quick" else 581
    g = set(SPECIAL) | set(float("%.6g" % v) for v in np.logspace(-12, 4, n))
    return sorted(g, key=lambda x: (abs(np.log10(x)), x))


def cases(tier):
    lm = list(range(0, 21)) + [24, 30, 31, 40, 60, 90, 150, 250] if tier == "quick" else list(range(0, 61)) + [90, 150, 250]
    short = [0, 1, 2, 3, 8, 20, 40, 60]  # the continued fraction needs about x terms
    return [{"id": "x=%r" % x, "x": x, "lmax": lm if x <= 1e4 else short} for x in grid(tier)]


_MIX = [3.7e-5, 0.37, 41.0, 830.0]


def run(case, ctx):
    x, lms = case["x"], case["lmax"]
    top = max(lms)
    li = np.array([float(v) for v in ref.ln_i(x, top + 2)])
    lk = np.array([float(v) for v in ref.ln_k(x, top + 2)])
    b = ref.bessel_i(x, top + 2)
    ratio = np.array([float(b[l] / b[l + 1]) for l in range(top + 1)])
    t = np.full(top + 1, 1e-10)
    t[:2] = bessel_tol(x)
    ti = t + 1e-13 * np.abs(li[:top + 1])
    tk = 1e-10 + 1e-13 * np.abs(lk[:top + 1])
    ctx.state("x", x)
    arrays = [("alone", np.array([x]), 0)]
    for j, y in enumerate(_MIX):
        arrays.append(("after %g" % y, np.array([y, x]), 1))
    arrays.append(("mixed", np.array([_MIX[3], x, _MIX[0], _MIX[1], x]), 1))
    arrays.append(("first of mixed", np.array([x, _MIX[0], _MIX[2]]), 0))
    for lm in lms:
        ctx.state("x,lmax", x, lm)
        for what, arr, pos in (arrays if lm <= 15 else arrays[:1] + arrays[-1:]):
            ctx.op(2)
            gi, gk = bessel_sk.lniknu(arr, lm)
            key = "lmax=%d" % lm
            ctx.check(np.shape(gi) == (len(arr), lm + 1) and np.shape(gk) == (len(arr), lm + 1), key,
                      "shapes %s %s" % (np.shape(gi), np.shape(gk)))
            ctx.close(gi[pos], li[:lm + 1], key, 0, ti[:lm + 1], "ln i_l(%r), lmax %d, %s" % (x, lm, what))
            ctx.close(gk[pos], lk[:lm + 1], key, 0, tk[:lm + 1], "ln k_l(%r), lmax %d, %s" % (x, lm, what))
            g2 = bessel_sk.lnknu(arr, lm)
            ctx.close(g2[pos], lk[:lm + 1], key, 0, tk[:lm + 1], "lnknu(%r), lmax %d, %s" % (x, lm, what))
        for ext in (0, 1, 1.0):
            ctx.op()
            got = bessel_sk.trans_bessels(np.array([x]), lm, ext)
            want, tol = (lk, tk) if ext else (li, ti)
            ctx.close(got, want[None, :lm + 1], "trans", 0, tol[None, :lm + 1],
                      "translation Bessel functions, ext=%s, x=%r, lmax %d" % (ext, x, lm))
        for lmin in (range(0, lm + 1) if lm <= 8 else (0, 1, 2, lm // 2, lm)):
            ctx.op()
            gi, gk = bessel_sk.mie_bessels(np.array([x]), lmin, lm)
            ctx.close(gi, li[None, lmin:lm + 1], "mie", 0, ti[None, lmin:lm + 1],
                      "orders %d..%d of ln i at %r" % (lmin, lm, x))
            ctx.close(gk, lk[None, lmin:lm + 1], "mie", 0, tk[None, lmin:lm + 1],
                      "orders %d..%d of ln k at %r" % (lmin, lm, x))
        ctx.op()
        try:
            bessel_sk.mie_bessels(np.array([x]), lm + 1, lm)
            ctx.check(False, "range", "an empty range of orders is accepted")
        except ValueError:
            ctx.points += 1
    # numpy integers as order, several orders of the ratio at once
    ctx.op(2)
    gi, gk = bessel_sk.lniknu(np.array([x]), np.int64(7))
    ctx.close(gi[0], li[:8], "int64", 0, ti[:8], "int64 order")
    nus = np.array([l + 0.5 for l in range(0, top + 1)])
    got = bessel_sk.i_fraction(np.array([x, 0.8, x]), nus)
    ctx.close(np.asarray(got)[:, 0], ratio, "ratio", 1e-10, 0, "i_l/i_{l+1} at %r" % x)
    ctx.close(np.asarray(got)[:, 2], ratio, "ratio", 1e-10, 0, "i_l/i_{l+1} at %r" % x)
    for l in (0, 1, 2, 5, 17, top):
        ctx.op()
        ctx.close(bessel_sk.fnu(np.array([x]), l + 0.5), ratio[l:l + 1], "ratio", 1e-10, 0,
                  "I(nu)/I(nu+1) at nu=%g, x=%r" % (l + .5, x))
    for bad in (2.5, "3"):
        for fn in (bessel_sk.lnknu, bessel_sk.lniknu):
            ctx.op()
            try:
                fn(np.array([x]), bad)
                ctx.check(False, "type", "order %r accepted" % (bad,))
            except TypeError:
                ctx.points += 1

"""Numerical helpers against exact arithmetic."""
import contextlib
import io
import itertools
import math
import warnings
from fractions import Fraction
import numpy as np
import scipy.optimize
import data_inter_extrapolation
import helper_functions as H
with contextlib.redirect_stdout(io.StringIO()):
    import materials_converter

ID = "C22"
TIMEOUT = 200
RULE = ("one case per block of orders, per grid and polynomial family, per table and request grid; every value compared with exact "
        "rational arithmetic, the polynomial's derivative or the model's interpolation; non-trivial: every comparison")
BOUNDS = {"quick": "orders 0..1500 as scalars, floats and arrays of every length up to 40; grids of 3..24 points x 6 origins x 9 spacings x all "
                   "729 polynomials of degree <= 5 with coefficients -1, 0, 1; power laws x multipliers 1..10; 30 tables x 640 request grids; "
                   "all lists of up to 3 oscillators over 12",
          "thorough": "orders 0..5000, grids up to 40 points, lists of up to 4 oscillators"}
ASSUMPTIONS = ["the derivative at the two outermost positions of each side is of lower order: exact up to degree 2 and 1, otherwise within "
               "the leading error of such a stencil",
               "tables with more than one requested frequency, increasing, at least one strictly inside; Drude-like tables with a damping "
               "below the lowest tabulated frequency, where the unweighted fit converges"]
ORIGIN = [-2.0, -0.5, 0.0, 0.75, 3.0, 50.0]
STEP = [0.03125, 0.25, 0.5, 1.0, 4.0]
STEP9 = STEP + [0.001, 0.1, 2.0, 10.0]
GOLD = (1.4e16 / 3e14, 5.3e13 / 3e14)
OSC = [[s, w] for s in (0.0, 0.05, 0.784, 3.0) for w in (0.0411, 1.0, 91.6)]
TABLES = [("uniform", 12, 30.0, 2.0), ("uniform", 5, 46.7, 0.177), ("log", 20, 30.0, 0.5), ("log", 8, 46.7, 0.177),
          ("uniform", 12, 5.0, 1.0), ("bumpy", 12, 30.0, 2.0), ("bumpy", 20, 35.0, 1.0), ("log", 3, 12.0, 0.3)]


def cases(tier):
    th = True
    deep = tier == "thorough"
    out = []
    for a in range(0, 5000 if deep else 1500, 100):
        out.append({"id": "orders %d.." % a, "part": "lfac", "a": a, "b": a + 100})
    for n in range(1, 41):
        out.append({"id": "orders, array of %d" % n, "part": "array", "n": n})
    for n in range(3, 41 if deep else 25):
        for x0 in ORIGIN:
            for h in STEP9 if th else STEP:
                out.append({"id": "grid %d from %g by %g" % (n, x0, h), "part": "poly", "n": n, "x0": x0, "h": h})
    for n in range(3, 41 if th else 13):
        for x0 in (0.75, 1.0, 3.0):
            out.append({"id": "power laws on %d from %g" % (n, x0), "part": "power", "n": n, "x0": x0})
    tabs = list(TABLES)
    if th:
        tabs += [(k, n, p, g) for k in ("uniform", "log", "bumpy") for n in (6, 15) for p, g in ((20.0, 1.0), (60.0, 0.4), (12.0, 0.1), (35.0, 3.0))
                 if (k, n, p, g) not in tabs]
    for i, t in enumerate(tabs):
        out.append({"id": "table %d %s" % (i, t), "part": "table", "t": list(t), "deep": th})
    for n in range(0, 5 if deep else 4):
        out.append({"id": "oscillators %d" % n, "part": "osc", "n": n})
    out.append({"id": "oscillators of the module", "part": "mod"})
    return out


def run(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["_" + case["part"]](case, ctx)
    ctx.state(case["id"])


def dblfac(n):
    """(2n-1)!! as an integer"""
    r = 1
    for i in range(1, n + 1):
        r *= 2 * i - 1
    return r


def _lfac(case, ctx):
    f, d = math.factorial(case["a"]), dblfac(case["a"])
    for n in range(case["a"], case["b"]):
        lf, ld = math.log(f), math.log(d)
        ctx.op(4)
        ctx.close(H.lfac(n), lf, "lfac %d" % n, 1e-12, 1e-13, "lfac(%d)" % n)
        ctx.close(H.lfac(float(n)), lf, "lfac %d float" % n, 1e-12, 1e-13, "lfac(%d.0)" % n)
        ctx.close(H.ln_2dbl(n), ld, "dbl %d" % n, 1e-11, 1e-11, "ln_2dbl(%d)" % n)
        ctx.close(H.ln_2dbl(np.array([n])), [ld], "dbl %d array" % n, 1e-11, 1e-11, "ln_2dbl(array(%d))" % n)
        ctx.close(H.lfac(n + 0.5), math.lgamma(n + 1.5), "lfac %d.5" % n, 1e-12, 1e-13, "lfac(%d.5)" % n)
        f *= n + 1
        d *= 2 * n + 1


def _array(case, ctx):
    n = case["n"]
    for start in (0, 1, 7, 60):
        o = np.arange(start, start + n)
        for arr in (o, o[::-1], o.astype(float), o.reshape(1, n), o.reshape(n, 1)):
            ctx.op(2)
            lf = np.array([math.log(math.factorial(int(i))) for i in arr.ravel()]).reshape(arr.shape)
            ld = np.array([math.log(dblfac(int(i))) for i in arr.ravel()]).reshape(arr.shape)
            ctx.close(H.lfac(arr), lf, "lfac %d" % start, 1e-12, 1e-13, "lfac(array)")
            ctx.close(H.ln_2dbl(arr), ld, "dbl %d" % start, 1e-11, 1e-11, "ln_2dbl(array)")


def _poly(case, ctx):
    n, x0, h = case["n"], case["x0"], case["h"]
    x = x0 + h * np.arange(n)
    d = np.arange(6)
    P = x[:, None]**d                                             # monomials
    with np.errstate(all="ignore"):
        D = np.where(d > 0, d * x[:, None]**np.maximum(d - 1, 0), 0.0)
    lo, hi = x[0], x[-1]
    big = max(abs(lo), abs(hi))
    top = np.array([1.0, 1, 2, 6, 24, 120])
    for c in itertools.product((-1, 0, 1), repeat=6):
        c = np.array(c, dtype=float)
        f = P @ c
        deg = max([i for i in range(6) if c[i]] or [0])
        got = np.asarray(H.num_derivative(f, x))
        ctx.op()
        if not ctx.check(got.shape == f.shape, "shape", "derivative of %d points has shape %s" % (n, got.shape)):
            return
        want = D @ c
        eps = 2e-15 * (np.abs(P) @ np.abs(c)).max() * 20 / h + 1e-15
        # bounds of the second, third and fifth derivative on the grid
        def bound(k):
            return sum(abs(c[i]) * top[i] / top[i - k] * big**(i - k) if i >= k else 0 for i in range(6))
        t2, t3, t5 = bound(2), bound(3), bound(5)
        tol = np.full(n, eps)
        if deg > 4:
            tol[2:-2] += 0.04 * h**4 * t5
        for i in (1, n - 2):
            tol[i] = eps + h**2 / 6 * t3 * 1.01
        for i in (0, n - 1):
            tol[i] = eps + h / 2 * t2 * 1.01
        bad = np.abs(got - want) > tol
        ctx.check(not bad.any(), "coefficients %s" % c.astype(int).tolist(),
                  lambda: "derivative of polynomial %s at position %d of %d: %.15g, exact %.15g" % (
                      c.astype(int).tolist(), int(np.argmax(bad)), n, got[np.argmax(bad)], want[np.argmax(bad)]))
    ctx.outcome(n, x0, h)


def _power(case, ctx):
    n, x0 = case["n"], case["x0"]
    for h in (0.1, 0.5):
        x = x0 + h * np.arange(n)
        for p in (-3.0, -1.0, 0.0, 1.0, 2.0, 3.0, 4.0, 2.5):
            for amp in (1.0, -2.0, 1e-6):
                f = amp * x**p
                want = amp * p * x**(p - 1)
                for m in (None, 1, 2, 3, 5, 10):
                    got = H.num_derivative(f, x, True) if m is None else H.num_derivative(f, x, True, m)
                    mm = 10 if m is None else m
                    ctx.op()
                    if not ctx.check(np.shape(got) == f.shape, "shape", "interpolated derivative of %d points has shape %s" % (n, np.shape(got))):
                        return
                    hh = h / mm
                    scale = np.abs(f).max()
                    far = max(x[0]**(p - 5), x[-1]**(p - 5))
                    d5 = abs(amp * p * (p - 1) * (p - 2) * (p - 3) * (p - 4)) * far
                    d3 = abs(amp * p * (p - 1) * (p - 2)) * max(x[0]**(p - 3), x[-1]**(p - 3))
                    d2 = abs(amp * p * (p - 1)) * max(x[0]**(p - 2), x[-1]**(p - 2))
                    eps = 1e-13 * scale / hh
                    tol = np.full(n, eps + 0.04 * hh**4 * d5)
                    if mm == 1:
                        tol[[1, -2]] = eps + hh**2 / 6 * d3 * 1.01
                    tol[[0, -1]] = eps + hh / 2 * d2 * 1.01
                    ctx.close(got, want, "x^%g multiplier %s" % (p, m), 0.0, tol, "interpolated derivative of %g x^%g, multiplier %s" % (amp, p, m))
        if x0 == 1.0:
            for p in (1.0, 2.0, 3.0):   # sign change, exact for the shifted power law
                if x[-1]**p < 1.31:
                    continue
                f = x**p - 1.3
                got = H.num_derivative(f, x, True, 4)
                ctx.op()
                hh = h / 4
                tol = np.full(n, 1e-12 * np.abs(f).max() / hh)
                tol[[0, -1]] += hh / 2 * p * abs(p - 1) * x[-1]**max(p - 2, 0) * 1.01
                ctx.close(got, p * x**(p - 1), "sign change %g" % p, 0.0, tol, "interpolated derivative of x^%g-1.3" % p)


def _table(case, ctx):
    kind, n, wp, g = case["t"]
    w = np.logspace(0.5, 2, n) if kind == "log" else np.linspace(4.0, 60.0, n)
    law = lambda x, a, b: 1 + a**2 / (x * b + x**2)
    e = law(w, wp, g)
    if kind == "bumpy":
        e = e * (1 + 0.02 * np.cos(np.arange(n) * 2.0))
    a, b = wp, g
    if kind == "bumpy":
        sol = scipy.optimize.least_squares(lambda p: law(w, p[0], p[1]) - e, [wp, g], xtol=1e-14, ftol=1e-14, gtol=1e-14)
        a, b = np.abs(sol.x[0]), sol.x[1]
    o = data_inter_extrapolation.data_interp_extrap(w, e)
    tol = 1e-5 if kind == "bumpy" else 1e-9
    inner = np.linspace(w[0], w[-1], 9)[1:-1]
    insides = [inner[:1], inner[3:4], inner[-1:], inner[2:4], inner, w[1:-1], np.sort(np.append(w[1:-1], inner[::2]))]
    insides += [np.append(w[:1], inner[2:3]), np.append(inner[4:5], w[-1:]), np.concatenate([w[:1], inner, w[-1:]])]
    belows = [[], [0.5], [0.2, 0.9]] + ([[0.05, 0.1, 0.2, 0.4], [0.99]] if case["deep"] else [])
    aboves = [[], [1.5], [1.2, 30.0]] + ([[1.01, 1.5, 4.0, 9.0], [1.001]] if case["deep"] else [])
    for i, bl, ab in itertools.product(insides, belows, aboves):
        grid = np.concatenate([np.array(bl) * w[0], np.unique(i), np.array(ab) * w[-1]])
        if grid.size < 2:
            continue
        got = o.get_drude_data(grid)
        ctx.op()
        inside = (grid > w[0]) & (grid < w[-1])
        want = np.where(inside, np.interp(grid, w, e), law(grid, a, b))
        edge = (grid == w[0]) | (grid == w[-1])                   # either reading is fine at the ends
        if kind == "bumpy":
            got2 = np.array(got, dtype=float, copy=True)
            if got2.shape == want.shape:
                alt = np.interp(grid, w, e)
                near = edge & (np.abs(got2 - alt) <= 1e-9 * np.abs(alt))
                want[near] = alt[near]
        key = "grid %d below %d inside %d above" % (len(bl), len(np.unique(i)), len(ab))
        ctx.close(got, want, key, tol, 0.0, "%s at %s" % (key, np.round(grid, 3).tolist()))
        vals, (lo, hi) = o.interpolate(grid)
        ctx.op()
        ctx.close(vals, np.interp(grid[inside], w, e), key + " interpolated", 1e-10, 0.0, "interpolate")
        ctx.close([lo, hi], [grid[inside][0], grid[inside][-1]], key + " bounds", 1e-12, 0.0, "bounds of the interpolation")
    ctx.close(o.epsilon_drude(w, 7.0, 0.3), law(w, 7.0, 0.3), "law", 1e-12, 0.0, "Drude law")
    x = np.linspace(0.1, 5.0, 4)
    line = data_inter_extrapolation.data_interp_extrap(w, 2.0 - 3.0 * w)
    ctx.close(line.fit(lambda t, u, v: u + v * t, x), 2.0 - 3.0 * x, "fit", 1e-6, 1e-5, "fit of a straight line")
    for om in (0.3, 5.0, float(w[1]), 1e3):
        ctx.op(2)
        ctx.close(o.get_drude_data(om), [law(om, *GOLD)], "float", 1e-12, 0.0, "single frequency %g" % om)
        ctx.close(o.get_drude_data(np.array([om])), [law(om, *GOLD)], "length one", 1e-12, 0.0, "single frequency %g" % om)


def _osc(case, ctx):
    ev = Fraction("1.60218e-19") / Fraction("1.05457e-34")
    for lst in itertools.product(OSC, repeat=case["n"]):
        got = materials_converter.transform([list(o) for o in lst])
        ctx.op()
        want = [[math.sqrt(s) * w * float(ev), w * float(ev)] for s, w in lst]
        if ctx.check(len(got) == len(want), "count", "%d oscillators became %d" % (len(want), len(got))) and want:
            ctx.close([list(o) for o in got], want, str(lst), 1e-12, 0.0, "transform(%s)" % (lst,))


def _mod(case, ctx):
    ev = 1.60218e-19 / 1.05457e-34
    src = [[7.84e-1, 4.11e-2], [2.03e-1, 1.12e-1], [4.17e-1, 1.12e-1], [3.93e-1, 1.11e-1], [5.01e-2, 1.45e+1],
           [8.20e-1, 1.70e+1], [2.17e-1, 8.14e+0], [5.50e-2, 9.16e+1]]
    got = materials_converter.transform(src)
    ctx.op()
    ctx.close([list(o) for o in got], [[math.sqrt(s) * w * ev, w * ev] for s, w in src], "list", 1e-12, 0.0, "published list")

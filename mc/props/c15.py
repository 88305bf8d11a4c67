"""Material models."""
import itertools
import json
import math
import os
import numpy as np
import materials as M
from .. import ref

ID = "C15"
TIMEOUT = 120
RULE = ("one case per oscillator list (and model) and one per predefined material: all magnetic responses and all wavenumbers as "
        "Python and NumPy scalars and as arrays of rank 0 to 3; compared with the oscillator formula in 40 digits; non-trivial: "
        "permittivity or permeability different from one")
BOUNDS = {"quick": "all lists of length 0..4 over 12 oscillators (22621), cyclic lists up to length 12, x 6 magnetic responses x 33 wavenumbers x 8 argument kinds; single-"
                   "oscillator Smith model over 12 oscillators; 28 predefined materials",
          "thorough": "cyclic lists up to length 24 with every stride"}
ASSUMPTIONS = ["k = 0 only for lists without resonance at zero", "mc/data/materials.json holds the parameters of the predefined materials"]
OSC = [(1.37e16, 0, 5.77e13), (1.37e16, 0, 0), (1e15, 0, 1e13), (7e14, 0, 0), (0, 0, 0), (0, 1e15, 0), (0, 0, 1e13), (1e15, 1e15, 0),
       (2.1e16, 1.35e16, 1e13), (8e11, 1e11, 0), (3e14, 5e16, 2e14), (5.0e13, 6.2e13, 0)]
MAG = [(), (4, 1e9), (2.5, 6e14), (0.5, 3e14), (100.0, 3e12), (1, 1e9)]
KS = [1e-10, 1e-6, 1e-4, 1e-3, 0.01, 0.1, 0.3, 0.9, 1.0, 2.7, 10.0, 46.0, 150.0, 1e3, 1e5, 1e7, 1e9]
KT = sorted(set(KS + [float("%.3g" % 10**(0.7 * i - 9)) for i in range(16)]))
DATA = json.load(open(os.path.join(os.path.dirname(__file__), "..", "data", "materials.json")))


def cases(tier):
    out = []
    n = 4
    ks = KT
    for r in range(n + 1):
        for p in itertools.product(range(len(OSC)), repeat=r):
            if r <= 1:
                out.append({"id": "list %s" % (p,), "part": "list", "idx": [list(p)], "ks": ks})
            elif p[-1] == 0:
                out.append({"id": "lists %s" % (p[:-1],), "part": "list", "idx": [list(p[:-1]) + [i] for i in range(len(OSC))], "ks": ks})
    # longer lists: every start and stride through the alphabet
    for r in range(5, 13 if tier == "quick" else 25):
        for st in (1, 5, 7, 11) if tier == "quick" else range(1, 12):
            out.append({"id": "long %d by %d" % (r, st), "part": "list", "idx": [[(i + st * j) % len(OSC) for j in range(r)] for i in range(len(OSC))], "ks": ks})
    for i in range(len(OSC)):
        out.append({"id": "smith %d" % i, "part": "smith", "i": i, "ks": ks})
    for name in sorted(DATA):
        out.append({"id": "predefined " + name, "part": "pre", "name": name, "ks": ks})
    out.append({"id": "relations", "part": "rel"})
    return out


_OSCV = {}


def osc(t, k):
    if (t, k) not in _OSCV:
        _OSCV[t, k] = ref.eps(("lorentz", [t], ()), k) - 1
    return _OSCV[t, k]


def kinds(ks):
    a = np.array(ks)
    n = len(ks)
    yield "array", a, lambda v: v
    yield "rank 3", np.array(ks + ks[:4 * ((n + 3) // 4) - n]).reshape(-1, 2, 2), lambda v: np.ravel(v)[:n]
    yield "column", a[:, np.newaxis].copy(), lambda v: np.ravel(v)
    yield "reversed view", a[::-1], lambda v: v[::-1]


def responses(mat, e, b, smith, ks, ctx, tag, flags=True):
    if smith:
        eps = [float(ref.eps(("smith", e, ()), k)) for k in ks]
    else:
        eps = [float(1 + sum(osc(t, k) for t in e)) for k in ks]
    mu = [float(ref.mu((None, e, b), k)) for k in ks]
    for fn, want, name in ((mat.epsilon, eps, "epsilon"), (mat.mu, mu, "mu")):
        for kind, arg, back in kinds(ks):
            before = arg.copy()
            ctx.op()
            got = fn(arg)
            if not (name == "epsilon" and smith and not e):
                if not ctx.check(np.shape(got) == arg.shape, "%s shape" % name, "%s %s: shape %s for %s" % (tag, name, np.shape(got), kind)):
                    return
            ctx.close(back(np.asarray(got)), want, "%s %s" % (name, kind), 1e-12, 0, "%s %s, %s" % (tag, name, kind))
            ctx.check(np.array_equal(arg, before), "%s argument" % name, "%s %s changed its argument" % (tag, name))
        whole = [i for i, k in enumerate(ks) if k == int(k) and k < 1e8]
        for kind, arg in (("integers", np.array([int(ks[i]) for i in whole])), ("integer column", np.array([[int(ks[i])] for i in whole]))):
            ctx.op()
            ctx.close(np.ravel(fn(arg)), [want[i] for i in whole], "%s %s" % (name, kind), 1e-12, 0, "%s %s, %s" % (tag, name, kind))
        for i in (0, len(ks) // 2, len(ks) - 1):
            ctx.op(2)
            ctx.close(np.ravel(fn(float(ks[i]))), [want[i]], "%s float" % name, 1e-12, 0, "%s %s(%g)" % (tag, name, ks[i]))
            ctx.close(np.ravel(fn(np.float64(ks[i]))), [want[i]], "%s float64" % name, 1e-12, 0, "%s %s(float64 %g)" % (tag, name, ks[i]))
    got = np.asarray(mat.epsilon(np.array(ks)))
    ctx.check((got >= 1).all(), "at least one", "%s: permittivity below one" % tag)
    ctx.check((np.diff(got) <= 0).all(), "decreasing", "%s: permittivity increases with the wavenumber" % tag)
    ctx.check(abs(got[-1] - 1) < 1e-6, "tends to one", "%s: permittivity at %g is %r" % (tag, ks[-1], got[-1]))
    if len(b):
        m = np.asarray(mat.mu(np.array(ks)))
        ctx.check(abs(m[-1] - 1) < 1e-3 and (np.diff(np.abs(m - 1)) <= 0).all(),
                  "mu relaxes", "%s: permeability does not relax to one" % tag)


def classify(mat, e, b, ctx, tag):
    free = [t for t in e if t[0] != 0 and t[1] == 0]
    sigma = not any(t[2] == 0 for t in free)
    ctx.check(bool(mat.is_sigma_finite) == sigma, "sigma", "%s: finite conductivity reported as %s" % (tag, mat.is_sigma_finite))
    ctx.check(bool(mat.is_dielectric) == (not free), "dielectric", "%s: dielectric reported as %s" % (tag, mat.is_dielectric))
    if not (len(b) and b[0] == 1):
        ctx.check(bool(mat.is_magnetic) == (len(b) > 0), "magnetic", "%s: magnetic reported as %s" % (tag, mat.is_magnetic))
    ctx.check(not mat.is_perfect_conductor, "perfect", "%s: reported as perfect conductor" % tag)
    # agreement with the static behaviour of the same object
    k = 1e-9
    v = np.asarray(mat.epsilon(np.array([k, 2 * k])))
    if not free:
        s = math.log(v[0] / v[1]) / math.log(2)
        ctx.check(abs(s) < 1e-3, "static", "%s: a dielectric diverges at small wavenumber" % tag)
    else:
        s = math.log((v[0] - 1) / (v[1] - 1)) / math.log(2)
        ctx.check(abs(s - (1 if sigma else 2)) < 1e-2, "static", "%s: permittivity grows with power %.3f" % (tag, s))
    ctx.outcome(sigma, bool(free), len(b) > 0, "%.6e" % v[0])


def run(case, ctx):
    p, ks = case["part"], case.get("ks")
    if p == "list":
        for idx in case["idx"]:
            e = [OSC[i] for i in idx]
            for b in MAG:
                mat = M.LorentzMaterial(list(e), b)
                tag = "%s %s" % (e, b)
                responses(mat, e, b, False, ks, ctx, tag)
                classify(mat, e, b, ctx, tag)
            if not [t for t in e if t[1] == 0]:
                ctx.op()
                want = float(1 + sum((t[0] / t[1])**2 for t in e))
                ctx.close(np.ravel(mat.epsilon(np.array([0.0]))), [want], "zero", 1e-12, 0, "epsilon(0) of %s" % e)
            ctx.state(idx)
    elif p == "smith":
        e = [OSC[case["i"]]]
        for b in MAG:
            mat = M.LorentzSmithMaterial(list(e), b)
            responses(mat, e, b, True, ks, ctx, "smith %s" % e)
            f = e[0][0] != 0 and e[0][1] == 0
            ctx.check(bool(mat.is_dielectric) == (not f), "dielectric", "smith %s: dielectric %s" % (e, mat.is_dielectric))
            ctx.check(bool(mat.is_sigma_finite) == (not (f and e[0][2] == 0)), "sigma", "smith %s: %s" % (e, mat.is_sigma_finite))
        ctx.state(case["i"])
    elif p == "pre":
        d = DATA[case["name"]]
        mat = getattr(M, case["name"])
        if d["pec"]:
            ctx.check(bool(mat.is_perfect_conductor), "perfect", "not a perfect conductor")
            ctx.close(mat.mu(np.array(ks)), np.ones(len(ks)), "mu", 0, 0, "mu of the perfect conductor")
            ctx.op()
        else:
            e, b = [tuple(t) for t in d["e"]], tuple(d["b"])
            responses(mat, e, b, d["class"] == "LorentzSmithMaterial", ks, ctx, case["name"])
            if d["class"] != "LorentzSmithMaterial":
                classify(mat, e, b, ctx, case["name"])
            else:
                ctx.check(bool(mat.is_sigma_finite) == d["sigma_finite"] and bool(mat.is_dielectric) == d["dielectric"], "flags",
                          "classification %s %s" % (mat.is_sigma_finite, mat.is_dielectric))
        ctx.check(mat.name == d["name"], "name", "name is %r" % mat.name)
        ctx.state(case["name"])
    else:
        for a in ("Gold", "Silver", "Mercury", "SiC"):
            x, y = getattr(M, a), getattr(M, a + "_plasma")
            ctx.op(2)
            k = np.array([1e4, 1e5])
            ctx.close(y.epsilon(k) - 1, (x.epsilon(k) - 1), a, 1e-3, 0, "%s and its plasma model at large wavenumber" % a)
            ctx.check(x.is_sigma_finite and not y.is_sigma_finite, a + " flags", "%s: plasma model conductivity" % a)
        k = np.array(KS)
        extra = M.LorentzMaterial([(8e11, 1e11, 0)], ())
        ctx.close(M.modifiedWater.epsilon(k) - M.Water.epsilon(k), extra.epsilon(k) - 1, "water", 1e-6, 1e-10, "modified water")
        ctx.state("relations")

"""Requests the library does not support are refused, and leave the objects as they were."""
import itertools
import os
import warnings
import numpy as np
import bessel_sk
import geometry
import helper_functions
import scattering
import stratified_sphere_scattering as strat
import thermodynamics
from .. import faults, jobs
from ..common import mat, build, geo, rav
from .c08 import make

ID = "C25"
TIMEOUT = 120
RULE = ("one case per geometry, shape tuple or group of arguments: every unsupported request must raise, every supported neighbour must not; "
        "one case per sequence of refused and supported requests on one object: the supported ones answer as on a new object; "
        "non-trivial: a refusal was observed")
BOUNDS = {"quick": "9 media that conduct x 9 sphere materials, outside and inside, and 6 layered or coated geometries x 13 entry points reaching zero "
                   "frequency; all sequences of 3 requests out of 10 (5 unsupported) on 6 geometries and thermodynamic objects; all shape tuples "
                   "with 0..4 axes of length 1..3 for 6 matrix helpers; all grids of 3 values out of 4 for the derivative; 15 slice sizes; 51 job files; 5 job files interrupted by "
                   "an exception of a material at every evaluation (4 kinds of exception)",
          "thorough": "sequences of 4 requests"}
ASSUMPTIONS = ["any exception counts as a refusal", "a medium conducts if its permittivity diverges at zero frequency"]
COND = ["drude", "plasma01", "plasma", "drudemag", "smith", "pec", "plasmamag", "drude_ps", "plasmadrude"]
DIEL = ["vac", "ps", "mag", "dia", "eth", "const4", "magvac"]
SPH = ["vac", "ps", "drude", "plasma01", "mag", "drudemag", "smith", "pec", "dia"]
LAYERED = [dict(g=geo([0.5, 1.0], 1.2, 2.9, ["ps", "drude", "eth"], "ps", "eth", 2, 2)),
           dict(g=geo(1.0, [0.4, 1.2], 2.9, "pec", ["ps", "mag", "eth"], "eth", 2, 2)),
           dict(g=geo([0.3, 0.5, 1.0], [0.4, 1.2], 2.9, ["ps", "mag", "ps", "eth"], ["ps", "mag", "eth"], "eth", 2, 3)),
           dict(g=geo([0.6, 1.0], [0.3, 0.8], 2.6, ["ps", "drude", "eth"], ["pec", "mag", "eth"], "eth", 2, 3), coated=True),
           dict(g=geo([0.6, 1.0], [0.3, 0.8], 2.6, ["ps", "ps", "vac"], ["ps", "ps", "vac"], "vac", 1, 1), coated=True),
           dict(g=geo([0.6], [0.3, 0.8], 2.6, ["ps", "vac"], ["ps", "mag", "vac"], "vac", 1, 2))]
Z, Z1 = np.array([0.0]), np.array([0.0, 0.7])


def zero_ops(lmax):
    ops = {"mSumme_k0": lambda G: G.mSumme_k0(), "mSumme [0]": lambda G: G.mSumme(Z.copy()), "mSumme [0,k]": lambda G: G.mSumme(Z1.copy()),
           "one": lambda G: G.mSum_oneRoundtrip(Z1.copy()), "trips": lambda G: G.mSum_roundtrips(Z1.copy()),
           "trips 2": lambda G: G.mSum_roundtrips(Z1.copy(), order=2),
           "F_alle": lambda G: thermodynamics.finiteT(0.7, 2, 0.7, G).F_alle(Z1.copy())}
    for m in range(0, lmax + 1):
        ops["single_m_k0 %d" % m] = lambda G, m=m: G.single_m_k0(m)
        ops["single_m [0] %d" % m] = lambda G, m=m: G.single_m(m, Z.copy())
        ops["single_m [0,k] %d" % m] = lambda G, m=m: G.single_m(m, Z1.copy())
        ops["blocks k0 %d" % m] = lambda G, m=m: G.blockmatrices_k0(m)
        ops["blocks %d" % m] = lambda G, m=m: G.blockmatrices(m, Z1.copy())
        ops["channels %d" % m] = lambda G, m=m: G.blockmatrices_channels(m, Z1.copy())
        ops["super %d" % m] = lambda G, m=m: G.supermatrix(m, Z1.copy())
    return ops


def cases(tier):
    out = []
    for s, m in itertools.product(SPH, COND + DIEL):
        out.append({"id": "sphere %s in %s" % (s, m), "part": "static", "s": s, "m": m})
    for i, c in enumerate(LAYERED):
        out.append({"id": "layered %d" % i, "part": "layered", "i": i})
    n = 4 if tier == "thorough" else 3
    for i in range(6):
        for a in range(10):
            out.append({"id": "sequences %d from %d" % (i, a), "part": "seq", "i": i, "first": a, "n": n})
    dims = [()]
    for d in (1, 2, 3, 4):
        dims += list(itertools.product((1, 2, 3), repeat=d)) if d < 4 else list(itertools.product((1, 2), repeat=d))
    for d in dims:
        out.append({"id": "shape %s" % (d,), "part": "shape", "d": list(d)})
    for i in range(4):
        out.append({"id": "block shapes %d" % i, "part": "blocks", "i": i})
    out += [{"id": "interrupted job %d by %s" % (i, k), "part": "interrupted", "i": i, "kind": k} for i in range(len(CONFS)) for k in faults.KINDS]
    out += [{"id": p, "part": p} for p in ("orders", "layers", "slices", "grids", "objects", "jobs", "azimuthal", "materials")]
    return out


def refused(ctx, key, fn, what):
    ctx.op()
    try:
        r = fn()
    except Exception:
        ctx.check(True, key, "")
        return True
    ctx.check(False, key, "%s was answered with %.200r" % (what, r))
    return False


def accepted(ctx, key, fn, what):
    ctx.op()
    try:
        fn()
    except Exception as e:
        ctx.check(False, key, "%s was refused: %s: %s" % (what, type(e).__name__, e))
        return
    ctx.check(True, key, "")


def run(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["_" + case["part"]](case, ctx)
    ctx.state(case["id"])


def _static(case, ctx):
    s, m = case["s"], case["m"]
    bad = m in COND
    test = refused if bad else accepted
    for lmin, lmax in ((1, 1), (1, 4), (2, 3)):
        for R in (0.3, 2.0):
            test(ctx, "mie_k0", lambda: scattering.scattering(mat(s), mat(m)).mie_k0(lmin, lmax, R), "static scattering by %s in %s" % (s, m))
            test(ctx, "mie_internal_k0", lambda: scattering.scattering(mat(m), mat(s)).mie_internal_k0(lmin, lmax, R),
                 "static reflection inside a sphere of %s" % m)
    for r1, r2, L in ((1.0, 1.2, 2.9), (0.6, 2.0, 0.8)):
        if m == "pec" and not bad:
            continue
        for lm, ls in ((1, 1), (2, 3)):
            g = geo(r1, r2, L, s, "ps", m, lm, ls)
            for k, f in zero_ops(lm).items():
                test(ctx, "L=%g %s" % (L, k), lambda: f(build(g)), "%s with zero frequency in %s" % (k, m))


def _layered(case, ctx):
    c = LAYERED[case["i"]]
    for k, f in zero_ops(c["g"]["lmax"]).items():
        if k == "F_alle":          # evaluated at a small frequency instead
            continue
        refused(ctx, k, lambda: f(make(c)), "%s with zero frequency for layered spheres" % k)
    accepted(ctx, "finite", lambda: make(c).mSumme(np.array([0.7])), "finite frequency for layered spheres")


SEQG = [dict(g=geo(1.0, 1.2, 2.9, "ps", "drude", "drude", 2, 2)), dict(g=geo(0.6, 2.0, 0.8, "ps", "mag", "plasma01", 2, 2)), LAYERED[0], LAYERED[3],
        dict(g=geo(1.0, 1.2, 2.9, "ps", "drude", "eth", 2, 3)), dict(g=geo(1.0, 1.2, 2.9, "pec", "pec", "vac", 2, 2))]


def _seq(case, ctx):
    c = SEQG[case["i"]]
    static_ok = case["i"] in (4, 5)
    ka, kb = np.array([0.7]), np.array([0.2, 1.5])

    def thermo(G):
        return thermodynamics.finiteT(0.9, 2, 0.9, G)
    ops = [("mSumme [0,k]", lambda G: G.mSumme(Z1.copy()), not static_ok), ("mSumme_k0", lambda G: G.mSumme_k0(), not static_ok),
           ("mmax", lambda G: G.mSum_oneRoundtrip(ka.copy(), mmax=9), True), ("mmax float", lambda G: G.mSum_oneRoundtrip(kb.copy(), mmax=1.5), True),
           ("super force", lambda G: G.supermatrix(1, Z1.copy(), 1), None),
           ("mSumme a", lambda G: G.mSumme(ka.copy()), False), ("mSumme b", lambda G: G.mSumme(kb.copy()), False),
           ("single", lambda G: G.single_m(1, kb.copy()), False), ("trips", lambda G: G.mSum_roundtrips(kb.copy(), order=3), False),
           ("F_alle", lambda G: thermo(G).F_alle(np.array([0.9, 1.8])), False)]
    ref = []
    for name, f, bad in ops:
        if bad is False:
            ref.append(rav(f(make(c))))
        else:
            ref.append(None)
    for tail in itertools.product(range(len(ops)), repeat=case["n"] - 1):
        G = make(c)
        hist = []
        for i in (case["first"],) + tail:
            name, f, bad = ops[i]
            hist.append(name)
            what = "after ".join([name + " "] + [", ".join(hist[:-1])]) if hist[:-1] else name
            if bad is None:
                ctx.op()
                try:
                    f(G)
                except Exception:
                    pass
            elif bad:
                refused(ctx, "refused %s" % hist, lambda: f(G), what)
            else:
                ctx.op()
                try:
                    got = rav(f(G))
                except Exception as e:
                    ctx.check(False, "answer %s" % hist, "%s: raised %s: %s" % (what, type(e).__name__, e))
                    continue
                if ref[i] is None:
                    continue
                ctx.close(got, ref[i], "answer %s" % hist, 1e-12, 1e-300, what)
        ctx.state(case["id"], tuple(hist))


def _shape(case, ctx):
    d = tuple(case["d"])
    A = np.zeros(d) + 0.1
    if A.ndim >= 2 and d[-1] == d[-2]:
        A = A + 2 * np.eye(d[-1])
    for e in ((), (2,), (2, 2), (1, 2, 2), (2, 2, 2), (2, 3, 2), (1, 2, 2, 2)):
        B = np.zeros(e) + 0.2
        three = len(d) == 3 and len(e) == 3
        # numpy stretches axes of length one: no statement about those
        if not three or (d[2] != e[1] and 1 not in (d[2], e[1])) or (d[0] != e[0] and 1 not in (d[0], e[0])):
            refused(ctx, "dot %s" % (e,), lambda: geometry.dot_3d_matrices(A, B), "product of shapes %s and %s" % (d, e))
        elif d[0] == e[0] and d[2] == e[1]:
            accepted(ctx, "dot %s" % (e,), lambda: geometry.dot_3d_matrices(A, B), "product of shapes %s and %s" % (d, e))
    (accepted if len(d) == 3 and d[1] == d[2] else refused)(ctx, "inv", lambda: geometry.inv_3d_matrix(A), "inverse of shape %s" % (d,))
    even = len(d) == 3 and d[1] == d[2] and d[1] % 2 == 0
    (accepted if even else refused)(ctx, "blockinv", lambda: geometry.inv_3d_blockmatrix(A), "block inverse of shape %s" % (d,))
    (accepted if len(d) == 3 and d[1] == d[2] else refused)(ctx, "slogdet", lambda: geometry.balanced_slogdet(A * 0.01, 0.9), "ln det of shape %s" % (d,))
    if len(d) != 4:
        refused(ctx, "dynamic", lambda: geometry.dynamic_scaling(A), "scaling of shape %s" % (d,))
    if len(d) != 3:
        refused(ctx, "single", lambda: geometry.single_k_scale(A), "scaling of shape %s" % (d,))


def _blocks(case, ctx):
    """shapes of the four blocks that do not agree"""
    sh = [(1, 1, 1), (1, 2, 2), (2, 1, 1), (2, 2, 2), (1, 3, 3)]
    for t in itertools.product(sh, repeat=3):
        four = list(t)
        four.insert(case["i"], (1, 2, 2))
        Ms = [np.zeros(s) + 0.01 for s in four]
        same = len(set(four)) == 1
        (accepted if same else refused)(ctx, "sln_det_3d %s" % four, lambda: geometry.sln_det_3d(*Ms), "ln det of blocks with shapes %s" % four)
    for a, b in itertools.product([(1, 1), (2, 2), (3, 3), (1, 2), (2, 1)], repeat=2):
        A, B = np.zeros(a) + 0.01, np.zeros(b) + 0.01
        if a != b:
            refused(ctx, "blockdiagonal %s %s" % (a, b), lambda: geometry.sln_det_blockdiagonal(A, B), "ln det of blocks %s %s" % (a, b))
        elif a[0] == a[1]:
            accepted(ctx, "blockdiagonal %s" % (a,), lambda: geometry.sln_det_blockdiagonal(A, B), "ln det of blocks %s" % (a,))
    for s in ((2,), (1, 2, 2)):
        A = np.zeros(s) + 0.01
        refused(ctx, "blockdiagonal %s" % (s,), lambda: geometry.sln_det_blockdiagonal(A, A.copy()), "ln det of blocks with shape %s" % (s,))


def _orders(case, ctx):
    x = np.array([0.3, 2.0, 150.0])
    for bad in (1.0, 2.5, "3", None, [2], (1,), 1j):
        refused(ctx, "lnknu %r" % (bad,), lambda: bessel_sk.lnknu(x, bad), "lnknu of order %r" % (bad,))
        refused(ctx, "lniknu %r" % (bad,), lambda: bessel_sk.lniknu(x, bad), "lniknu of order %r" % (bad,))
    for lmin, lmax in itertools.product(range(0, 6), repeat=2):
        (refused if lmin > lmax else accepted)(ctx, "mie_bessels %d %d" % (lmin, lmax), lambda: bessel_sk.mie_bessels(x, lmin, lmax),
                                               "orders %d to %d" % (lmin, lmax))


def _layers(case, ctx):
    m = [mat("ps"), mat("drude"), mat("eth"), mat("mag"), mat("vac")]
    r = [0.3, 0.5, 0.9, 1.2, 1.5]
    k = np.array([0.4, 2.0])
    for a, b in itertools.product(range(0, 6), range(0, 6)):
        ok = a == b + 1 and b >= 1
        f = lambda: strat.StratifiedMieScattering(m[:a], r[:b]).mie_stratified(k, 1, 3)
        (accepted if ok else refused)(ctx, "layers %d %d" % (a, b), f, "%d materials and %d radii" % (a, b))
    for mm, rr in ((m[0], 1.0), (tuple(m[:2]), (1.0,)), (m[0], [1.0]), (m[:2], 1.0), (None, None)):
        refused(ctx, "lists %s" % type(mm).__name__ + type(rr).__name__, lambda: strat.StratifiedMieScattering(mm, rr).mie_stratified(k, 1, 3),
                "layered sphere without lists")


def _slices(case, ctx):
    f = lambda n: 1.0 * n
    for bad in (0, -1, -7, 0.3, "x", "", "-2", "0", None, [3], float("nan")):
        refused(ctx, "slice %r" % (bad,), lambda: thermodynamics.slicewise_eval(f, 1, 5, bad), "slices of size %r" % (bad,))
    for good in (1, 2, 7, 100):
        accepted(ctx, "slice %r" % (good,), lambda: thermodynamics.slicewise_eval(f, 1, 5, good), "slices of size %r" % (good,))


def _grids(case, ctx):
    for x in itertools.product((0.0, 0.5, 1.0, 2.0), repeat=2):
        g = np.array([x[0], x[1], 2 * x[1] - x[0], 3 * x[1] - 2 * x[0], 4 * x[1] - 3 * x[0], 5 * x[1] - 4 * x[0]])
        y = 1.0 + g**2
        for ip in (False, True):
            (accepted if x[1] > x[0] else refused)(ctx, "grid %s %s" % (x, ip), lambda: helper_functions.num_derivative(y, g, interpolate=ip),
                                                   "derivative on the grid %s" % g)


def _objects(case, ctx):
    g = geo(1.0, 1.2, 2.9, "ps", "drude", "eth", 2, 2)
    for ev in ("", "det", "LNDET", "traces", None, 0, "lndet "):
        refused(ctx, "evaluation %r" % (ev,), lambda: build(g, evaluation=ev), "evaluation %r" % (ev,))
    for ev in ("lndet", "trace"):
        accepted(ctx, "evaluation %r" % (ev,), lambda: build(g, evaluation=ev), "evaluation %r" % (ev,))

    class Other:
        pass
    o = Other()
    o.__dict__.update(build(g).__dict__)
    for bad in (o, None, "SphereSphere", geometry.SphereSphere):
        refused(ctx, "finiteT %r" % type(bad), lambda: thermodynamics.finiteT(0.7, 2, 0.7, bad), "thermodynamics of %r" % (type(bad),))
    for bad in (0.5, 2.0, "x"):
        refused(ctx, "nprocs %r" % (bad,), lambda: thermodynamics.finiteT(0.7, 2, 0.7, build(g), nprocs=bad), "%r processes" % (bad,))
    refused(ctx, "parallel", lambda: thermodynamics.finiteT(0.7, 2, 0.7, build(g), nprocs=2).free_energy(), "parallel evaluation")


def _azimuthal(case, ctx):
    for lm in (1, 2, 4):
        for bad in (lm + 1, lm + 5, 1.0, "1", None, 0.5):
            g = geo(1.0, 1.2, 2.9, "ps", "drude", "eth", lm, lm)
            refused(ctx, "mmax %d %r" % (lm, bad), lambda: build(g).mSum_oneRoundtrip(np.array([0.7]), mmax=bad), "azimuthal cut-off %r at lmax %d" % (bad, lm))
        for good in range(1, lm + 1):
            accepted(ctx, "mmax %d %r" % (lm, good), lambda: build(g).mSum_oneRoundtrip(np.array([0.7]), mmax=good), "azimuthal cut-off %d" % good)


def _materials(case, ctx):
    for k in (0.0, 1e-8, 0.5, 30.0, np.array([0.1, 2.0])):
        refused(ctx, "pec %s" % k, lambda: mat("pec").epsilon(k), "permittivity of a perfect conductor at %s" % k)
    import materials
    base = [c for c in vars(materials).values() if isinstance(c, type) and c.__name__ == "Material"]
    for c in base:
        refused(ctx, "abstract epsilon", lambda: c().epsilon(0.5), "permittivity of the abstract material")
        refused(ctx, "abstract mu", lambda: c().mu(0.5), "permeability of the abstract material")


BASE = [{"ra": "1.0", "rb": "1.2", "d": "2.9", "precision": "1e-6", "lmax": "2", "lssmax": "2", "evaluation": "lndet", "analytic_n0": "True"},
        {"mata": "materials.Polystyrene", "matb": "materials.Gold", "matmd": "materials.Vacuum"},
        {"Tmin": "0.8", "nmax": "2", "Tmax": "0.8", "quantity": "free_energy()"}]
WRONG = [(0, "ra", None), (0, "rb", None), (0, "d", None), (0, "precision", None), (0, "lmax", None), (0, "lssmax", None), (0, "analytic_n0", None),
         (1, "mata", None), (1, "matb", None), (1, "matmd", None), (2, "Tmin", None), (2, "nmax", None), (2, "Tmax", None), (2, "quantity", None),
         (0, "ra", "one"), (0, "rb", "1,x"), (0, "ra", ""), (0, "d", "far"), (0, "d", "2.9,3.1"), (0, "precision", "high"),
         (0, "lmax", "x"), (0, "lmax", "2.5"), (0, "lssmax", "y"), (0, "lssmax", "3.5"), (0, "evaluation", "det"), (0, "evaluation", "traces"),
         (0, "analytic_n0", "maybe"), (0, "l_offset", "a"), (0, "ra", "0.5,1.0"), (0, "rb", "0.3,0.5,1.2"),
         (1, "mata", "materials.Unobtainium"), (1, "matb", "Gold"), (1, "matmd", "materials.PerfectConductor"), (1, "matmd", "materials.Gold"),
         (1, "mata", "materials.Gold, materials.Vacuum"), (1, "matb", "materials.Gold, materials.Polystyrene, materials.Vacuum"),
         (2, "Tmin", "cold"), (2, "nmax", "many"), (2, "nmax", "2.5"), (2, "Tmax", "hot"), (2, "quantity", "enthalpy()"), (2, "quantity", "free_energy("),
         (2, "quantity", "")]


def _jobs(case, ctx):
    """a job that cannot be computed ends with an error and writes no result"""
    runs = [("arguments %d" % n, ["job.in", "out.dat", "2.9", "x"][:n], jobs.text(*BASE)) for n in (0, 1, 4)]
    runs += [("distance", ["job.in", "out.dat", "near"], jobs.text(*BASE)), ("no file", ["job.in", "out.dat"], None), ("empty file", ["job.in", "out.dat"], "")]
    for i in range(3):
        runs.append(("section %d" % i, ["job.in", "out.dat"], jobs.text(*[{} if i == j else b for j, b in enumerate(BASE)])))
    for i, key, val in WRONG:
        secs = [dict(b) for b in BASE]
        secs[i][key] = val
        runs.append(("%s = %s" % (key, val), ["job.in", "out.dat"], jobs.text(*secs)))
    for name, argv, cfg in [("plain", ["job.in", "out.dat"], jobs.text(*BASE))] + runs:
        d = jobs.scratch()
        try:
            if cfg is not None:
                with open(os.path.join(d, "job.in"), "w") as f:
                    f.write(cfg)
            before = jobs.files(d)
            ctx.op()
            st = jobs.run(d, argv)
            if name == "plain":
                ctx.check(st == 0 and "out.dat" in jobs.files(d), "job plain", "the unchanged job fails: %s" % st)
                continue
            ctx.check(st != 0, "job %s" % name, "job with %s: worker.py reports success" % name)
            ctx.check(jobs.files(d) == before, "files %s" % name, "job with %s: left files %s" % (name, sorted(set(jobs.files(d)) - set(before))))
        finally:
            jobs.drop(d)


CONFS = [({}, {}, {}), ({"analytic_n0": "False"}, {}, {"quantity": "entropy()", "Tmax": "1.6"}), ({"evaluation": "trace"}, {}, {"quantity": "get_f_matsubaras(1)"}),
         ({"ra": "0.5,1.0"}, {"mata": "materials.Gold, materials.Polystyrene, materials.Vacuum"}, {}),
         ({"lmax": "automatic", "lssmax": "automatic", "precision": "1e-1", "d": "8"}, {"mata": "materials.PerfectConductor"}, {"nmax": "automatic", "Tmin": "2.0", "Tmax": "2.0"})]


def _interrupted(case, ctx):
    """a job whose calculation fails half-way writes nothing and ends with an error"""
    secs = [dict(b) for b in BASE]
    for s, c in zip(secs, CONFS[case["i"]]):
        s.update(c)
    n = 0
    while n < 500:
        n += 1
        d = jobs.scratch()
        try:
            with open(os.path.join(d, "job.in"), "w") as f:
                f.write(jobs.text(*secs))
            with open(os.path.join(d, "old.dat"), "w") as f:
                f.write("1\n")
            before = jobs.files(d)
            ctx.op()
            st = jobs.run(d, ["job.in", "old.dat" if n % 2 else "out.dat"], fault=(n, case["kind"]))
            if st == "unreached":
                ctx.check(n > 1, "reached", "no evaluation of a material")
                return
            what = "job interrupted at evaluation %d of a material" % n
            if st == 0 and case["kind"] in ("attribute", "value"):
                continue            # the library may recover from these
            ctx.check(st == "failed", "interrupted status", "%s: worker.py ends with %s" % (what, st))
            ctx.check(jobs.files(d) == before, "interrupted files", "%s: left %s" % (what, sorted(set(jobs.files(d)) - set(before))))
            ctx.state(case["id"], n)
        finally:
            jobs.drop(d)
    ctx.check(False, "interrupted", "no end")

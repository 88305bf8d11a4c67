"""Calculations leave their inputs and the predefined materials alone."""
import contextlib
import io
import itertools
import warnings
import numpy as np
import bessel_sk
import cython_gaunt
import data_inter_extrapolation
import geometry
import helper_functions
import materials
import PFA
import raw_PFA
import scattering
import stratified_sphere_scattering
import thermodynamics
import translation
with contextlib.redirect_stdout(io.StringIO()):
    import materials_converter
from .. import faults
from ..common import mat
from ..engine import pristine

ID = "C20"
TIMEOUT = 200
RULE = ("one case per calculation and kind of argument buffers (inputs, predefined materials, repeated call, buffers overwritten "
        "afterwards), and one case per first calculation with every second calculation on the same arguments; one case per calculation interrupted by "
        "an exception of a material at each of its evaluations, followed by the same calculation; non-trivial: "
        "every calculation executed")
BOUNDS = {"quick": "about 70 calculations x 5 kinds of buffers; all ordered pairs of calculations on shared arguments; every calculation interrupted at each "
                   "of its first 60 evaluations of a material (3 kinds of exception)",
          "thorough": "additionally all ordered triples whose first two calculations are among 30 and every pair for 3 kinds of buffers"}
ASSUMPTIONS = ["the result of a calculation alone in a fresh process is the oracle for pairs, agreement within 1e-10",
               "objects may keep private caches; their radii, distances, materials and truncations count as inputs"]
KINDS = {
    "sorted": [0.4, 1.9, 2.2],
    "unsorted": [3.1, 1e-4, 0.7],
    "single": [0.9],
    "strided": [0.4, 0.8, 7.0],
    "frozen": [0.3, 1.9],
}
PRE = [n for n in sorted(vars(materials)) if isinstance(getattr(materials, n), materials.Material)]
PROBE = np.array([1e-3, 0.5, 3.0, 80.0])


class Pool:
    """the caller's objects"""

    def __init__(self, kind="sorted"):
        v = np.array(KINDS[kind])
        self.base = np.zeros(2 * len(v)) + 17.0
        if kind == "strided":
            self.base[::2] = v
            k = self.base[::2]
        else:
            k = v
        self.k = k
        self.k0 = np.append([0.0], np.sort(v))
        self.static = np.array([0.0])
        self.n = np.arange(0, 4)
        self.nu = np.array([0.5, 1.5, 4.5])
        self.orders = np.arange(0, 9)
        self.x = np.linspace(1.0, 3.0, 7)
        self.f = self.x**2 + 1.0
        self.fs = self.x - 2.1
        self.radii = [0.6, 1.0]
        self.radii3 = [0.5, 0.7, 1.4]
        self.au, self.ps, self.eth, self.mag = mat("drude"), mat("ps"), mat("eth"), mat("mag")
        self.mats = [self.au, self.ps, self.eth]
        self.mats4 = [materials.Silicon, self.mag, self.ps, self.eth]
        self.params = [[0.784, 0.0411], [0.203, 0.112]]
        rng = np.arange(2 * 4 * 4, dtype=float).reshape(2, 4, 4)
        self.A = 0.2 * np.cos(rng) * np.exp(-0.1 * rng)
        self.B = 0.1 * np.sin(rng)
        self.C = 0.05 * np.cos(2 * rng)
        self.D = 0.1 * np.sin(3 * rng) * np.array([1.0, 1e3, 1.0, 1e-3])
        self.A2, self.B2 = self.A[0].copy(), self.D[1].copy() * 1e-2
        self.a1, self.b1 = np.array([[0.3]]), np.array([[0.2]])
        self.lnM = -0.3 * (rng + 0.5 * rng[:, ::-1]).reshape(4, 4, 2)
        self.lnM4 = self.lnM[np.newaxis] * np.array([1.0, 2.0])[:, None, None, None]
        self.wt = np.linspace(10.0, 60.0, 12)
        self.et = 1 + 2000.0 / (self.wt**2 + 2.0 * self.wt)
        self.wg = np.linspace(3.0, 80.0, 15)
        self.eprop = [(1.37e16, 0, 5.77e13), (1e15, 2e14, 0)]
        # in no order, with entries that mean nothing and entries given twice
        self.emixed = [(3e14, 5e15, 2e13), (1e15, 2e14, 0), (0, 1e14, 1e12), (2e15, 9e14, 1e14), (3e14, 5e15, 2e13), (5e13, 6e14, 0)]
        self.emetal = [(3e14, 5e15, 2e13), (1e15, 0, 3e13), (2e15, 0, 1e13), (1e15, 2e14, 0)]
        self.own, self.metal = materials.LorentzMaterial(list(self.emixed), ()), materials.LorentzMaterial(list(self.emetal), (2, 3e14))
        self.bprop = (3, 3e14)
        if kind == "frozen":
            for a in self.arrays():
                a.flags.writeable = False

    def arrays(self):
        return [a for a in vars(self).values() if isinstance(a, np.ndarray)]

    def snap(self):
        return {n: freeze(v) for n, v in vars(self).items()}


def freeze(v):
    if isinstance(v, np.ndarray):
        return ("array", v.shape, str(v.dtype), v.strides, v.flags.writeable, v.copy().tobytes())
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(freeze(x) for x in v)
    if isinstance(v, materials.Material):
        return ("material", id(v), material(v))
    return repr(v)


def material(m):
    """what a user can see of a material"""
    out = [bool(getattr(m, a, False)) for a in ("is_perfect_conductor", "is_sigma_finite", "is_magnetic", "is_dielectric")]
    out += [repr(getattr(m, a, None)) for a in ("name", "e_properties", "b_properties", "omega_norm")]
    out.append(m.mu(PROBE.copy()).tobytes())
    if not m.is_perfect_conductor:
        out.append(np.asarray(m.epsilon(PROBE.copy())).tobytes())
    return tuple(out)


def predefined():
    out = {n: material(getattr(materials, n)) for n in PRE}
    for n in sorted(vars(materials)):
        v = getattr(materials, n)
        if n.startswith(("e_", "b_")) and isinstance(v, (list, tuple)):
            out[n] = repr(v)
    return out


def solid(p, **kw):
    return geometry.SphereSphere(1.0, 1.4, 3.0, p.au, p.ps, p.eth, lmax=2, lssmax=2, precision=1e-10, **kw)


def inside(p):
    return geometry.SphereSphere(0.5, 2.0, 0.9, p.mag, p.au, p.eth, lmax=2, lssmax=3, precision=1e-10)


def layered(p):
    return geometry.SphereSphere(p.radii, p.radii3, 3.0, p.mats, p.mats4, p.eth, lmax=2, lssmax=2, precision=1e-10)


def coated(p):
    return geometry.CoatedSphereSphere(0.5, 1.0, p.au, p.ps, 0.9, 1.4, p.mag, p.au, 3.0, p.eth, 2, 2)


def named(p):
    M = materials
    return geometry.SphereSphere(1.0, 1.2, 2.9, M.Gold, M.Altern1Ps, M.modifiedWater, lmax=2, lssmax=2, precision=1e-10)


def plates(mod, p):
    return mod.SphereSpherePFA(p.au, materials.Polystyrene, p.eth)


def attrs(o):
    return [freeze(getattr(o, a)) for a in ("r1", "r2", "L", "mat1", "mat2", "mat3", "lmax", "lssmax", "precision", "evaluation")]


def cal(make, fn):
    """calculation on an object: its own definition must survive as well"""
    def g(p):
        o = make(p)
        before = attrs(o)
        try:
            return fn(o, p)
        finally:
            if attrs(o) != before:
                raise AssertionError("the definition of the geometry changed")
    return g


T = thermodynamics
OPS = {
    "lnknu": lambda p: bessel_sk.lnknu(p.k, 4),
    "lniknu": lambda p: bessel_sk.lniknu(p.k, 4),
    "fnu": lambda p: bessel_sk.fnu(p.k, 1.5),
    "i_fraction": lambda p: bessel_sk.i_fraction(p.k, p.nu),
    "mie_bessels": lambda p: bessel_sk.mie_bessels(p.k, 2, 4),
    "trans_bessels ext": lambda p: bessel_sk.trans_bessels(p.k, 4, 1),
    "trans_bessels int": lambda p: bessel_sk.trans_bessels(p.k, 4, 0),
    "gaunt": lambda p: cython_gaunt.gaunt(4, 3, 1),
    "ln_2dbl": lambda p: helper_functions.ln_2dbl(p.orders),
    "lfac": lambda p: helper_functions.lfac(p.orders),
    "derivative": lambda p: helper_functions.num_derivative(p.f, p.x),
    "derivative fine": lambda p: helper_functions.num_derivative(p.f, p.x, True, 4),
    "derivative sign": lambda p: helper_functions.num_derivative(p.fs, p.x),
    "table interpolate": lambda p: data_inter_extrapolation.data_interp_extrap(p.wt, p.et).interpolate(p.wg)[0],
    "table drude": lambda p: data_inter_extrapolation.data_interp_extrap(p.wt, p.et).get_drude_data(p.wg),
    "table law": lambda p: data_inter_extrapolation.data_interp_extrap(p.wt, p.et).epsilon_drude(p.wg, 30.0, 2.0),
    "table single": lambda p: data_inter_extrapolation.data_interp_extrap(p.wt, p.et).get_drude_data(p.wg[:1]),
    "transform": lambda p: materials_converter.transform(p.params),
    "epsilon": lambda p: [m.epsilon(p.k) for m in (p.au, p.ps, materials.Gold, materials.MercurySmith, materials.Vacuum)],
    "mu": lambda p: [m.mu(p.k) for m in (p.au, p.mag, materials.Gold_magnetic, materials.MercurySmith, materials.PerfectConductor)],
    "new material": lambda p: [materials.LorentzMaterial(p.eprop, p.bprop).epsilon(p.k), materials.LorentzMaterial(p.eprop, p.bprop).mu(p.k)],
    "new mixed": lambda p: [materials.LorentzMaterial(e, ()).epsilon(p.k) for e in (p.emixed, p.emetal)],
    "own mie": lambda p: scattering.scattering(p.metal, p.own).mie(p.k, 1, 3, 1.1),
    "own mie_k0": lambda p: scattering.scattering(p.metal, p.own).mie_k0(1, 3, 1.1),
    "own mie_internal_k0": lambda p: scattering.scattering(p.own, p.metal).mie_internal_k0(1, 3, 1.1),
    "own stratified": lambda p: stratified_sphere_scattering.StratifiedMieScattering([p.metal, p.own, p.metal, p.eth], p.radii3).mie_stratified(p.k, 1, 3),
    "own sum": cal(lambda p: geometry.SphereSphere(1.0, 1.4, 3.0, p.metal, p.metal, p.own, lmax=2, lssmax=2, precision=1e-10), lambda o, p: o.mSumme(p.k0)),
    "new smith": lambda p: [materials.LorentzSmithMaterial(p.eprop[:1], p.bprop).epsilon(p.k), materials.LorentzSmithMaterial(p.eprop[:1], p.bprop).mu(p.k)],
    "kinds": lambda p: [f(e) for e in (p.eprop, p.emixed, p.emetal) for f in (materials.is_sigma_finite, materials.is_dielectric)] + [materials.is_magnetic(p.bprop)],
    "mie": lambda p: scattering.scattering(p.au, p.eth).mie(p.k, 1, 3, 1.1),
    "mie magnetic": lambda p: scattering.scattering(p.mag, materials.Ethanol).mie(p.k, 2, 3, 0.4),
    "mie conductor": lambda p: scattering.scattering(materials.PerfectConductor, p.eth).mie(p.k, 1, 3, 1.1),
    "mie_internal": lambda p: scattering.scattering(p.eth, p.au).mie_internal(p.k, 1, 3, 1.1),
    "mie_internal conductor": lambda p: scattering.scattering(p.eth, materials.PerfectConductor).mie_internal(p.k, 1, 3, 1.1),
    "mie_k0": lambda p: scattering.scattering(p.au, p.eth).mie_k0(1, 3, 1.1),
    "mie_k0 plasma": lambda p: scattering.scattering(materials.Gold_plasma, p.eth).mie_k0(1, 3, 1.1),
    "mie_internal_k0": lambda p: scattering.scattering(p.eth, p.ps).mie_internal_k0(1, 3, 1.1),
    "fresnel": lambda p: scattering.scattering(p.au, p.eth).fresnel(p.k, 0.7),
    "mie_coated": lambda p: scattering.coated_miescattering(p.au, p.ps, p.eth).mie_coated(p.k, 1, 3, 0.5, 1.1),
    "mie_stratified": lambda p: stratified_sphere_scattering.StratifiedMieScattering(p.mats, p.radii).mie_stratified(p.k, 1, 3),
    "mie_stratified 3": lambda p: stratified_sphere_scattering.StratifiedMieScattering(p.mats4, p.radii3).mie_stratified(p.k, 1, 3),
    "translation ext": lambda p: translation.translation(2, 3, 1, p.eth, 3.0, p.k, 1).trans_ab(),
    "translation int": lambda p: translation.translation(2, 3, 1, p.eth, 0.9, p.k, 0).trans_ab(),
    "translation static": lambda p: translation.translation(2, 3, 1, p.eth, 3.0, p.static, 1).trans_ab(),
    "dot_3d": lambda p: geometry.dot_3d_matrices(p.A, p.B),
    "inv_3d": lambda p: geometry.inv_3d_matrix(np.eye(4) - p.A),
    "inv_3d raw": lambda p: geometry.inv_3d_matrix(p.D),
    "inv_block": lambda p: geometry.inv_3d_blockmatrix(p.D),
    "sln_det_3d": lambda p: geometry.sln_det_3d(p.A, p.B, p.C, p.D),
    "sln_det_block": lambda p: geometry.sln_det_blockdiagonal(p.A2, p.B2),
    "sln_det_block 1": lambda p: geometry.sln_det_blockdiagonal(p.a1, p.b1),
    "trace_dot": lambda p: geometry.trace_dot_3d(p.A, p.D),
    "balanced_slogdet": lambda p: geometry.balanced_slogdet(p.D),
    "single_k_scale": lambda p: geometry.single_k_scale(p.lnM),
    "dynamic_scaling": lambda p: geometry.dynamic_scaling(p.lnM4),
    "matrix_append": lambda p: geometry.matrix_append([p.A, p.B, p.C, p.D]),
    "get_lmax": lambda p: geometry.get_lmax(1.0, 1.4, 3.0, 1e-4, 2),
    "solid sum": cal(solid, lambda o, p: o.mSumme(p.k)),
    "solid sum static": cal(solid, lambda o, p: o.mSumme(p.k0)),
    "solid m": cal(solid, lambda o, p: o.single_m(1, p.k)),
    "solid m static": cal(solid, lambda o, p: o.single_m(1, p.k0)),
    "solid static": cal(solid, lambda o, p: o.mSumme_k0()),
    "solid blocks": cal(solid, lambda o, p: o.blockmatrices(1, p.k)),
    "solid channels": cal(solid, lambda o, p: o.blockmatrices_channels(1, p.k)),
    "solid trips": cal(solid, lambda o, p: o.mSum_roundtrips(p.k, order=3)),
    "solid one trip": cal(solid, lambda o, p: o.mSum_oneRoundtrip(p.k)),
    "solid trips of M": cal(solid, lambda o, p: o.arbitrary_roundtrips(p.A, 3, 0)),
    "solid trace": cal(lambda p: solid(p, evaluation="trace"), lambda o, p: o.mSumme(p.k)),
    "inside sum": cal(inside, lambda o, p: o.mSumme(p.k)),
    "inside static": cal(inside, lambda o, p: o.mSumme_k0()),
    "layered sum": cal(layered, lambda o, p: o.mSumme(p.k)),
    "layered m": cal(layered, lambda o, p: o.single_m(2, p.k)),
    "coated sum": cal(coated, lambda o, p: o.mSumme(p.k)),
    "named sum": cal(named, lambda o, p: o.mSumme(p.k0)),
    "finiteT energy": cal(solid, lambda o, p: T.finiteT(0.8, 3, 1.6, o).free_energy()),
    "finiteT layered": cal(layered, lambda o, p: T.finiteT(0.8, 2, 1.6, o).free_energy()),
    "finiteT entropy": cal(named, lambda o, p: T.finiteT(0.8, 3, 2.4, o, analytic_n0=False).entropy()),
    "finiteT terms": cal(inside, lambda o, p: T.finiteT(0.8, 3, 1.6, o).get_f_matsubaras(0, 2)),
    "finiteT automatic": cal(solid, lambda o, p: T.finiteT(1.5, "automatic", 3.0, o).free_energy()),
    "finiteT F_alle": cal(solid, lambda o, p: T.finiteT(0.8, 3, 1.6, o).F_alle(p.k0)),
    "oneRoundtrip": cal(solid, lambda o, p: T.oneRoundtrip(0.8, 2, 1.6, o).free_energy()),
    "slicewise": lambda p: T.slicewise_eval(lambda n: n * 2.0, 0, 5, 2),
    "plates terms": lambda p: plates(PFA, p).get_f_matsubaras(0.8, 1.3, p.k),
    "plates terms shielded": lambda p: plates(PFA, p).get_f_matsubaras(0.8, 1.3, p.k0, True),
    "plates terms static": lambda p: plates(PFA, p).get_f_matsubaras(0.8, 1.3, p.k0),
    "plates energy": lambda p: plates(PFA, p).planeplaneFreeEnergy(2.0, 2.0),
    "plates high T": lambda p: plates(PFA, p).planeplaneFreeEnergyHT(1.0),
    "plates trips": lambda p: plates(PFA, p).roundTrips(float(p.k[0]), 0.7, 1.0),
    "plates force": lambda p: plates(PFA, p).spheresphereForce(1.0, 1.2, 2.0, 4.2),
    "raw terms": lambda p: plates(raw_PFA, p).get_f_matsubaras(0.8, 1.3, p.k),
    "raw terms static": lambda p: plates(raw_PFA, p).get_f_matsubaras(0.8, 1.3, p.k0),
    "raw trips": lambda p: plates(raw_PFA, p).pressureRoundTrips(float(p.k[0]), 0.7, 1.0),
    "raw high T": lambda p: plates(raw_PFA, p).planeplaneFreeEnergyHT(1.0),
    "raw force": lambda p: plates(raw_PFA, p).spheresphereForce(1.0, 1.2, np.inf, 1.0),
}
FIRST = ["lniknu", "i_fraction", "epsilon", "mu", "new material", "mie", "mie_k0", "mie_internal", "mie_coated", "mie_stratified",
         "mie_stratified 3", "translation ext", "translation static", "sln_det_3d", "balanced_slogdet", "trace_dot", "transform",
         "table drude", "derivative fine", "solid sum", "solid sum static", "solid trips", "solid trace", "inside static",
         "layered sum", "coated sum", "named sum", "finiteT energy", "raw terms static", "plates terms static"]
_ALONE = {}
_PRE = {}


def flat(r):
    if isinstance(r, (list, tuple)):
        parts = [flat(x) for x in r]
        return np.concatenate(parts) if parts else np.zeros(0)
    return np.array(r, dtype=float).ravel()


def quietly(fn, p):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(p)


def alone(kind, op):
    return _ALONE[kind, op]


def prepare(tier):
    kinds = ["sorted", "unsorted", "strided"] if tier == "thorough" else ["sorted", "unsorted"]
    for kind in kinds:
        for op in OPS:
            _ALONE[kind, op] = pristine(lambda: flat(quietly(OPS[op], Pool(kind))))
    _PRE.update(pristine(lambda: {"pre": predefined()})["pre"])


def cases(tier):
    out = [{"id": "%s, %s buffers" % (o, k), "part": "one", "op": o, "kind": k} for o in OPS for k in KINDS]
    for k in (["sorted", "unsorted", "strided"] if tier == "thorough" else ["sorted"]):
        out += [{"id": "%s first, %s buffers" % (o, k), "part": "pairs", "op": [o], "kind": k} for o in OPS]
    for k in faults.KINDS:
        if k != "value" or tier == "thorough":
            out += [{"id": "%s interrupted by %s" % (o, k), "part": "fault", "op": o, "kind": "unsorted", "fault": k,
                     "n": 60 if tier == "quick" else 400} for o in OPS]
    if tier == "thorough":
        out += [{"id": "%s, %s first" % (a, b), "part": "pairs", "op": [a, b], "kind": "sorted"}
                for a, b in itertools.product(FIRST, FIRST)]
    return out


def same(ctx, a, b, key, what):
    a, b = np.asarray(a), np.asarray(b)
    if not ctx.check(a.shape == b.shape, key, "%s: %d values instead of %d" % (what, a.size, b.size)):
        return
    ok = np.isclose(a, b, rtol=1e-10, atol=1e-13 * (1 + np.abs(b[np.isfinite(b)]).max() if b.size else 0), equal_nan=True)
    ctx.check(ok.all(), key, lambda: "%s: %.17g instead of %.17g" % (what, a[~ok][0], b[~ok][0]))


def inputs(ctx, p, before, what):
    after = p.snap()
    for n in before:
        ctx.check(after[n] == before[n], "input " + n, lambda: "%s changed the caller's %s: now %r" % (what, n, getattr(p, n)))


def world(ctx, what):
    now = predefined()
    for n in _PRE:
        if not ctx.check(now.get(n) == _PRE[n], "predefined " + n, "%s changed the predefined %s" % (what, n)):
            break


def run(case, ctx):
    kind = case["kind"]
    if case["part"] == "one":
        op = case["op"]
        fn = OPS[op]
        p = Pool(kind)
        before = p.snap()
        r = quietly(fn, p)
        ctx.op()
        ctx.state(op)
        inputs(ctx, p, before, op)
        world(ctx, op)
        first = flat(r)
        ctx.outcome(first[:4].tolist())
        same(ctx, flat(quietly(fn, p)), first, "again", "%s repeated with the same arguments" % op)
        ctx.op()
        inputs(ctx, p, before, op)
        same(ctx, flat(quietly(fn, Pool(kind))), first, "equal arguments", "%s with equal new arguments" % op)
        ctx.op()
        same(ctx, flat(r), first, "kept result", "earlier result of %s after repeating it" % op)
        for a in p.arrays():
            a.flags.writeable = True
            a += 3
        p.radii[0], p.radii3[1] = 0.1, 0.55
        p.mats.reverse()
        p.params[0][0] = 5.0
        same(ctx, flat(r), first, "alias", "result of %s after the caller reused its buffers" % op)
        return
    if case["part"] == "fault":
        op = case["op"]
        for n in range(1, case["n"] + 1):
            p = Pool(kind)
            before = p.snap()
            ctx.op(2)
            with faults.at(n, case["fault"]) as st:
                try:
                    quietly(OPS[op], p)
                except AssertionError:
                    raise
                except (Exception, KeyboardInterrupt):
                    pass
            if not st["hit"]:
                break
            what = "%s interrupted at evaluation %d of a material" % (op, n)
            inputs(ctx, p, before, what)
            if n == 1 or n == 7:
                world(ctx, what)
            if len(_ALONE["unsorted", op]) and n <= 12:
                same(ctx, flat(quietly(OPS[op], p)), _ALONE["unsorted", op], "after fault", "%s repeated after it was interrupted (%d)" % (op, n))
            ctx.state(op, n)
        return
    firsts = case["op"]
    for second in OPS:
        p = Pool(kind)
        before = p.snap()
        for o in firsts:
            quietly(OPS[o], p)
            ctx.op()
        r = quietly(OPS[second], p)
        ctx.op()
        ctx.state(firsts, second)
        same(ctx, flat(r), alone(kind, second), second, "%s after %s" % (second, ", ".join(firsts)))
        inputs(ctx, p, before, second)
    world(ctx, ", ".join(firsts))

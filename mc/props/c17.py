"""Proximity approximation for two spheres."""
import itertools
import math
import warnings
import numpy as np
import PFA
import raw_PFA
from .. import lifshitz as li
from ..common import mat, rmat

ID = "C17"
TIMEOUT = 200
RULE = ("one case per pair of radii, gap and kind: local distance at every lateral position, force and energy for a plate free energy "
        "that is a known function of temperature, distance and shielding, and for real materials against the Lifshitz model; "
        "non-trivial: different radii and gaps")
BOUNDS = {"quick": "8 radii in all ordered pairs x 6 gaps x outside/inside x 4 temperatures x shielding; 11 lateral positions; "
                   "11 material triples at 3 temperatures (force) and at infinite temperature (energy), both implementations",
          "thorough": "12 radii, 9 gaps, energies of real materials at finite temperature"}
ASSUMPTIONS = ["the plate free energy is replaced by a subclass method with a known function for the exhaustive grid",
               "inside: the first sphere is the inner one",
               "energies to 1.5e-8 absolute, the accuracy the code asks of its quadrature"]
R = [0.1, 0.5, 0.7, 1.0, 2.0, 5.0, 20.0, 50.0]
RT = R + [0.3, 1.7, 9.0, 100.0]
GAP = [0.01, 0.1, 0.3, 0.55, 2.0, 9.0]
GT = GAP + [0.05, 1.0, 40.0]
TRIP = [("pec", "pec", "vac"), ("drude", "ps", "vac"), ("ps", "drude", "vac"), ("plasma", "drude", "eth"), ("mag", "pec", "vac"),
        ("const4", "const9", "eth"), ("smith", "ps", "eth"), ("ps", "ps", "magvac"), ("const9", "const4", "vac"), ("drude", "drude", "eth"),
        ("ps", "vac", "eth")]


def cases(tier):
    th = tier == "thorough"
    out = []
    for r1, r2 in itertools.product(RT if th else R, repeat=2):
        for g in (GT if th else GAP):
            out.append({"id": "outside %g %g %g" % (r1, r2, g), "part": "grid", "r": [r1, r2], "g": g, "ext": True})
            if r1 < r2 and r2 - r1 - g > 0:
                out.append({"id": "inside %g %g %g" % (r1, r2, g), "part": "grid", "r": [r1, r2], "g": g, "ext": False})
    for t in TRIP:
        for r1, r2, g, ext in ((1.0, 2.5, 0.4, True), (2.5, 1.0, 0.4, True), (1.0, 1.0, 1.2, True), (0.8, 3.0, 0.5, False)):
            out.append({"id": "real %s %g %g %g" % (t, r1, r2, g), "part": "real", "t": list(t), "r": [r1, r2], "g": g, "ext": ext,
                        "deep": th})
    for T in ("inf", 0.8):
        out.append({"id": "raw energy T=%s" % T, "part": "raw energy", "T": T})
    out.append({"id": "raw energy T=0", "part": "raw energy", "T": 0})
    return out


def plate(T, L, shield):
    """made-up plate free energy; for T = 0 and T = inf as well"""
    t = 7.3 if T == np.inf else T
    return -(1.0 + 0.2 * t) / L**2 * math.exp(-0.3 * L) * (0.37 if shield else 1.0) - 0.01 * t / (1 + L)


class Syn(PFA.SphereSpherePFA):
    def planeplaneFreeEnergy(self, T, L, n0_shielding=False):
        return plate(T, L, n0_shielding)

    def planeplaneFreeEnergyHT(self, L, n0_shielding=False):
        return plate(np.inf, L, n0_shielding)

    def planeplane_e0(self, L, n0_shielding=False):
        return plate(0, L, n0_shielding)


class SynRaw(raw_PFA.SphereSpherePFA):
    planeplaneFreeEnergy = Syn.planeplaneFreeEnergy
    planeplaneFreeEnergyHT = Syn.planeplaneFreeEnergyHT
    planeplane_e0 = Syn.planeplane_e0


GLX, GLW = np.polynomial.legendre.leggauss(40)


def gap(r1, r2, g, ext, rho):
    """gap between the surfaces at lateral position rho, without cancellation"""
    s1 = rho**2 / (r1 + math.sqrt(max(0.0, r1**2 - rho**2)))
    s2 = rho**2 / (r2 + math.sqrt(max(0.0, r2**2 - rho**2)))
    return g + s1 + s2 if ext else g + s1 - s2


def energy(fn, r1, r2, g, ext, panels=12):
    """integral over the projected area of the smaller sphere; rho = r sin(a), graded panels"""
    r = min(r1, r2)
    edges = (math.pi / 2) * (np.arange(panels + 1) / panels)**3
    tot = 0.0
    for a, b in zip(edges[:-1], edges[1:]):
        for x, w in zip(GLX, GLW):
            al = 0.5 * (a + b) + 0.5 * (b - a) * x
            rho = r * math.sin(al)
            tot += 0.5 * (b - a) * w * 2 * math.pi * rho * r * math.cos(al) * fn(gap(r1, r2, g, ext, rho))
    return tot


def run(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        {"grid": grid, "real": real, "raw energy": raw_energy}[case["part"]](case, ctx)
    ctx.state(case["id"])


def centre(r1, r2, g, ext):
    return r1 + r2 + g if ext else r2 - r1 - g


def grid(case, ctx):
    (r1, r2), g, ext = case["r"], case["g"], case["ext"]
    v = mat("vac")
    o, w = Syn(v, v, v), SynRaw(v, v, v)
    d = centre(r1, r2, g, ext)
    scale = max(r1, r2, d)
    rhos = [min(r1, r2) * x for x in (0, 0.01, 0.1, 0.2, 0.35, 0.5, 0.7, 0.85, 0.95, 0.99, 1.0)]
    for rho in rhos:
        ctx.op()
        ctx.close(o.distance(r1, r2, d, rho), gap(r1, r2, g, ext, rho), "distance %g" % rho, 1e-9, 1e-12 * scale, "gap at %g" % rho)
    reff = r1 * r2 / (r1 + r2 if ext else r2 - r1)
    for T in (0, 0.804, 3.0, np.inf):
        for sh in (False, True):
            tol = 1e-9 + 1e-11 * scale / g
            F = 2 * math.pi * reff * plate(T, g, sh)
            ctx.op(2)
            ctx.close(np.ravel(o.spheresphereForce(r1, r2, T, d, sh)), [F], "force %s %s" % (T, sh), tol, 0, "force T=%s shielding=%s" % (T, sh))
            ctx.close(np.ravel(w.spheresphereForce(r1, r2, T, g, sh, ext)), [F], "raw force %s %s" % (T, sh), tol, 0, "force, raw_PFA")
            if T in (0, 0.804, np.inf) or sh is False:
                ctx.op()
                E = energy(lambda L: plate(T, L, sh), r1, r2, g, ext)
                ctx.close(np.ravel(o.spheresphereEnergy(r1, r2, T, d, sh)), [E], "energy %s %s" % (T, sh), 1e-6 + 10 * tol, 1.5e-8,
                          "energy T=%s shielding=%s" % (T, sh))
    if ext:
        ctx.close(np.ravel(w.spheresphereForce(r1, r2, 0.8, g)), [2 * math.pi * reff * plate(0.8, g, False)], "raw default", 1e-9, 0,
                  "force, raw_PFA, default arguments")
    ctx.close(np.ravel(o.spheresphereForce(r1, r2, 0.8, d)), [2 * math.pi * reff * plate(0.8, g, False)], "default", 1e-9 + 1e-11 * scale / g, 0,
              "force, default arguments")


def real(case, ctx):
    (r1, r2), g, ext, t = case["r"], case["g"], case["ext"], case["t"]
    m = [mat(x) for x in t]
    r = [rmat(x) for x in t]
    d = centre(r1, r2, g, ext)
    reff = r1 * r2 / (r1 + r2 if ext else r2 - r1)
    o, w = PFA.SphereSpherePFA(*m), raw_PFA.SphereSpherePFA(*m)
    for T in (np.inf, 2.0):
        for sh in (False, True):
            want = 2 * math.pi * reff * li.free_energy(*r, T, g, sh)
            ctx.op()
            ctx.close(np.ravel(o.spheresphereForce(r1, r2, T, d, sh)), [want], "force %s %s" % (T, sh), 1e-5, 1e-6, "force T=%s" % T)
            if T == np.inf:
                ctx.op()
                ctx.close(np.ravel(w.spheresphereForce(r1, r2, T, g, sh, ext)), [want], "raw force %s" % sh, 1e-5, 1e-6, "force, raw_PFA")
    for sh in (False, True):
        E = energy(lambda L: li.free_energy(*r, np.inf, L, sh), r1, r2, g, ext, 2)
        ctx.op()
        ctx.close(np.ravel(o.spheresphereEnergy(r1, r2, np.inf, d, sh)), [E], "energy %s" % sh, 1e-4, 1e-6, "energy T=inf")
    if case["deep"]:
        E = energy(lambda L: li.free_energy(*r, 6.0, L, False), r1, r2, g, ext, 1)
        ctx.op()
        ctx.close(np.ravel(o.spheresphereEnergy(r1, r2, 6.0, d)), [E], "energy T=6", 1e-4, 1e-5, "energy T=6")


def raw_energy(case, ctx):
    """leading order: 2 pi Reff times the integral of the plate free energy from the gap outwards"""
    T = np.inf if case["T"] == "inf" else case["T"]
    pec, vac = mat("pec"), mat("vac")
    for g in (0.3, 1.0):
        s = np.arange(math.log(g), math.log(g) + (4.0 if T == 0.8 else 14.0), 0.05)
        if T == 0:
            F = [-math.pi**3 / (360 * math.exp(x)**3) for x in s]
        else:
            F = [li.free_energy("PEC", "PEC", rmat("vac"), T, math.exp(x)) for x in s]
        y = np.exp(s) * np.array(F)
        integral = 0.05 * (y.sum() - 0.5 * y[0] - 0.5 * y[-1])
        ctx.op()
        ctx.close(np.ravel(raw_PFA.SphereSpherePFA(pec, pec, vac).spheresphereEnergy(5.0, 7.0, T, g)), [2 * math.pi * 35.0 / 12.0 * integral],
                  "energy", 1e-2, 0, "energy, raw_PFA, perfect conductors, gap %g" % g)
        if T == 0:
            ctx.op()
            ctx.close(np.ravel(raw_PFA.SphereSpherePFA(pec, pec, vac).spheresphereEnergy(5.0, 7.0, T, g, ext=False)), [2 * math.pi * 35.0 / 2.0 * integral],
                      "energy inside", 1e-2, 0, "energy inside a cavity, raw_PFA, perfect conductors, gap %g" % g)
        if ctx.fails:
            return

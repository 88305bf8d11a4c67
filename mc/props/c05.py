"""Static scattering coefficients = limit of the dynamic ones."""
import itertools
import math
import numpy as np
import mpmath as mp
import scattering
import materials as M
from .. import ref

ID = "C05"
TIMEOUT = 200
OSC = {"b": (2.1e16, 1.35e16, 0), "B": (9e14, 6e14, 2e13), "d": (1.37e16, 0, 5.77e13), "D": (8e14, 0, 2e14),
       "p": (1.37e15, 0, 0), "P": (3.1e14, 0, 0), "G": (1.37e16, 0, 0)}
MAG = {"-": (), "m": (4, 1e9), "w": (0.4, 3e14)}
RULE = ("one case per oscillator list of the sphere (or of the cavity wall): every medium, radius, order "
        "and lowest order; non-trivial: the TM coefficient is never zero")
BOUNDS = {"quick": "all lists up to length 2 over 7 oscillators (bound, damped-free, undamped-free) x 3 magnetic "
                   "responses, all lists of 3 with two or three undamped free oscillators, lists of up to 6, Smith metals and the perfect conductor; 6 dielectric and 6 refused media; 6 radii; orders 1..24",
          "thorough": "all lists up to length 3 and lists of up to 6, 7 radii, orders 1..40"}
ASSUMPTIONS = ["the model at k = 1e-30 with 110 digits represents the limit (corrections < 1e-20)"]
MEDIA = {"vac": ("lorentz", (), ()), "eth": ("lorentz", [(3.2225e15, 6.6e14, 1e12), (1.0523e16, 1.14e16, 1e12)], ()),
         "one": ("lorentz", [(1e15, 2e15, 0)], ()), "mag": ("lorentz", [(1e15, 1e15, 1e13)], (3, 3e14)),
         "magvac": ("lorentz", (), (2.5, 6e14)), "dia": ("lorentz", [(1e15, 8e14, 0)], (0.5, 3e14))}
BADMEDIA = ["d", "p", "dp", "bp", "db", "smith"]


def spheres(tier):
    out = []
    for n in range(0, 3 if tier == "quick" else 4):
        for comb in itertools.product(OSC, repeat=n):
            for mg in MAG:
                out.append("".join(comb) + mg)
    if tier == "quick":
        # three and more: every multiset with at least two undamped free carriers, and long mixed lists
        out += ["".join(c) + "-" for c in itertools.product("bdpPG", repeat=3) if sum(x in "pPG" for x in c) >= 2]
    out += ["".join(c) + m for c in ("pPGb", "bpPG", "GPpp", "pbPdG", "BbpPGd", "bBbBp", "dDbdB", "bBbBb") for m in "-m"]
    return out + ["smith", "smithp", "pec"]


def props(name):
    if name == "smith":
        return ("smith", [(1.98e16, 0, 1.647e15)], ())
    if name == "smithp":
        return ("smith", [(1.1e15, 0, 0)], ())
    if name == "pec":
        return ref.PEC
    e = [OSC[c] for c in name if c in OSC]
    mg = [c for c in name if c in MAG]
    return ("lorentz", e if e else (), MAG[mg[0]] if mg else ())


def impl(pr):
    if pr == ref.PEC:
        return M.PerfectConductor
    kind, e, b = pr
    e = list(e) if isinstance(e, list) else e
    return M.LorentzSmithMaterial(e, b) if kind == "smith" else M.LorentzMaterial(e, b)


def cases(tier):
    out = []
    for s in spheres(tier):
        for kind in ("ext", "int"):
            out.append({"id": "%s %s" % (kind, s), "kind": kind, "sphere": s, "tier": tier})
    return out


def run(case, ctx):
    ext = case["kind"] == "ext"
    tier = case["tier"]
    lmax = 24 if tier == "quick" else 40
    radii = [0.05, 0.4, 1, 3.3, 11.0, 40.0] if tier == "quick" else [0.01, 0.05, 0.5, 1, 3.3, 12.0, 40.0]
    pr = props(case["sphere"])
    old = mp.mp.dps
    mp.mp.dps = 110
    try:
        k = mp.mpf(10)**-30
        for med, mp_ in MEDIA.items():
            for r in radii:
                ctx.state(case["id"], med, r)
                if ext:
                    rows = ref.mie_ext_all(pr, mp_, k, lmax, r)
                else:
                    rows = ref.mie_int_all(mp_, pr, k, lmax, r)
                x = k * mp.mpf(r) * ref.index(mp_, k)
                want = [[float(row[p] * x**((-1 if ext else 1) * (2 * l + 1)) /
                               _norm(l, ext)) for l, row in enumerate(rows, 1)] for p in (0, 1)]
                lns = np.array([float(mp.log(_norm(l, ext))) for l in range(1, lmax + 1)])
                ranges = [(1, lmax), (1, 1), (1, 2), (1, 3), (2, 2), (2, lmax), (3, 4), (5, 12), (lmax, lmax)] if r == 3.3 else [(1, lmax)]
                for lmin, lm in ranges:
                    ctx.op()
                    if ext:
                        got = scattering.scattering(impl(pr), impl(mp_)).mie_k0(lmin, lm, r)
                    else:
                        got = scattering.scattering(impl(mp_), impl(pr)).mie_internal_k0(lmin, lm, r)
                    got = np.asarray(got, dtype=float)
                    what = "%s medium %s r=%g orders %d..%d" % (case["id"], med, r, lmin, lm)
                    if not ctx.check(got.shape == (3, lm - lmin + 1), "shape", "%s: shape %s" % (what, got.shape)):
                        continue
                    sl = slice(lmin - 1, lm)
                    for p, pol in enumerate(("TE", "TM")):
                        ctx.close(got[p] * np.exp(got[2] - lns[sl]), np.array(want[p])[sl], pol, 1e-9, 1e-10,
                                  "%s %s" % (what, pol))
        for bad in BADMEDIA:
            for lmin in (1, 2):
                ctx.op()
                try:
                    if ext:
                        scattering.scattering(impl(pr), impl(props(bad))).mie_k0(lmin, 3, 1.0)
                    else:
                        scattering.scattering(impl(props(bad)), impl(pr)).mie_internal_k0(lmin, 3, 1.0)
                    ctx.check(False, "refused", "%s: conducting medium %s accepted" % (case["id"], bad))
                except NotImplementedError:
                    ctx.points += 1
    finally:
        mp.mp.dps = old


def _norm(l, ext):
    """(2l+1) ((2l-1)!!)^2 or its inverse"""
    d = mp.mpf(2 * l + 1) * mp.mpf(ref.fac(2 * l) // (2**l * ref.fac(l)))**2
    return 1 / d if ext else d

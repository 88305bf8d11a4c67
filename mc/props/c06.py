"""Layered and coated spheres."""
import itertools
import numpy as np
import mpmath as mp
import scattering
from stratified_sphere_scattering import StratifiedMieScattering
from .. import ref
from ..common import mat, rmat, index, MATS
from .c04 import compare

ID = "C06"
TIMEOUT = 200
RULE = ("one case per list of materials from core to medium: every radii list, wavenumber, order, lowest "
        "order, repeated queries, equal materials as the same and as different objects; non-trivial: at "
        "least one interface with different materials")
BOUNDS = {"quick": "all lists core + 1..3 shells + medium over 5 materials (core also a perfect conductor), over 7 (4 for three shells) that agree in permittivity or permeability only, and "
                   "alternating lists with up to 10 layers; 1-6 radii lists (layers as thin as 2e-6 of the radius), 7 wavenumbers, orders 1..6; orders up to 40 for 6 lists",
          "thorough": "9 materials for up to two shells, 6 for three shells; 8 wavenumbers, orders 1..10"}
ASSUMPTIONS = ["mc/ref.py solves the boundary conditions at all interfaces (40 digits)"]
KS = {"quick": [1e-5, 3e-3, 0.02, 0.4, 2.3, 14.0, 45.0], "thorough": [1e-8, 1e-5, 3e-3, 0.02, 0.4, 2.3, 14.0, 45.0]}
RADII = {1: [[1.0], [0.3]], 2: [[0.5, 1.0], [0.9, 1.0], [0.2, 3.1], [0.9998, 1.0], [0.99998, 1.0], [2.0, 2.000004]], 3: [[0.5, 0.8, 1.0], [0.1, 0.11, 2.5], [0.7, 0.70002, 1.0], [0.4, 1.49998, 1.5]],
         4: [[0.3, 0.5, 0.8, 1.0]], 5: [[0.2, 0.3, 0.5, 0.8, 1.0]],
         6: [[0.2, 0.3, 0.5, 0.8, 1.0, 1.1]], 7: [[0.2, 0.3, 0.5, 0.8, 1.0, 1.1, 1.7]], 8: [[0.1 * j for j in range(1, 9)]],
         9: [[0.3 * j for j in range(1, 10)]], 10: [[0.05 * j for j in range(4, 14)]]}


def cases(tier):
    small = ["vac", "ps", "drude", "mag", "plasma01"]
    big = small + ["eth", "smith", "drudemag", "const4"]
    out = []
    for n in (1, 2, 3):
        base = small if tier == "quick" else (big if n <= 2 else small + ["eth"])
        for l in itertools.product(base + ["pec"], *[base] * n):
            out.append(list(l))
    # neighbours that agree in permittivity or permeability only
    for n in (1, 2, 3):
        twins = ["vac", "magvac", "drude", "drudemag"] + ([] if n == 3 else ["drude_ps", "const4", "plasma"])
        for l in itertools.product(twins + ["pec"], *[twins] * n):
            out.append(list(l))
    for n in (4, 5):
        for l in itertools.product(["ps", "drude"] if n == 5 else ["ps", "drude", "mag"], repeat=n):
            out.append(list(l) + ["vac"])
            if n == 4:
                out.append(["pec"] + list(l)[1:] + ["ps"])
    for n in (5, 6, 7, 8, 9, 10):
        for two in itertools.permutations(["ps", "drude", "mag", "vac"], 2):
            out.append((list(two) * n)[:n] + ["eth"])
            out.append((["pec"] + list(two) * n)[:n] + ["vac"])
    seen, res = set(), []
    for l in out:
        if tuple(l) not in seen:
            seen.add(tuple(l))
            res.append({"id": "-".join(l), "mats": l, "tier": tier})
    # high orders
    for l in (["ps", "drude", "vac"], ["drude", "ps", "mag", "eth"], ["pec", "ps", "vac"], ["mag", "vac"], ["vac", "drude", "vac"],
              ["ps", "plasma01", "mag", "drude", "vac"]):
        for lm in (7, 8, 9, 10, 15, 16, 20, 32, 40) if tier == "quick" else tuple(range(11, 41)) + (60,):
            res.append({"id": "%s l=%d" % ("-".join(l), lm), "mats": l, "tier": tier, "lmax": lm})
    return res


def run(case, ctx):
    names, tier = case["mats"], case["tier"]
    n = len(names) - 1
    lmax = case.get("lmax", 6 if tier == "quick" else 10)
    ks = np.array(KS[tier])
    for radii in RADII[n]:
        ref_rows, slopes = [], []
        thin = [j for j in range(1, n) if radii[j] - radii[j - 1] < 1e-4 * radii[j]]
        for k in ks:
            ref_rows.append(ref.mie_layers_all([rmat(x) for x in names], radii, float(k), lmax))
            if thin:
                rr = [mp.mpf(r) for r in radii]
                rr[thin[0] - 1] *= 1 + mp.mpf("1e-9")
                moved = ref.mie_layers_all([rmat(x) for x in names], rr, float(k), lmax)
                slopes.append([[float(abs(a[p] - b[p]) / b[2]) * 1e9 for p in (0, 1)] for a, b in zip(moved, ref_rows[-1])])
            else:
                slopes.append(None)
            ctx.state(case["id"], radii, float(k))
        xs = [[float(k) * r * index(m, float(k)) for j, r in enumerate(radii) for m in names[j:j + 2] if m != "pec"]
              for k in ks]

        def judge(got, lmin, what, key, pos=None):
            got = np.asarray(got, dtype=float)
            cols = range(len(ks)) if pos is None else [pos]
            if not ctx.check(got.shape == (3, len(cols), lmax - lmin + 1), key, "%s: shape %s" % (what, got.shape)):
                return
            for c, j in enumerate(cols):
                compare(ctx, got[:, c:c + 1, :], ref_rows[j], lmin, lmax, xs[j],
                        "%s radii %s k=%g %s" % (case["id"], radii, ks[j], what), key, slopes[j])
        for shared in (True, False):
            pool = {}
            objs = [pool.setdefault(x, mat(x)) if shared else mat(x) for x in names]
            if not shared:      # a name says nothing about a material
                for o in objs:
                    if not o.is_perfect_conductor:
                        o.name = "sample"
            rl, ml = list(radii), list(objs)
            s = StratifiedMieScattering(ml, rl)
            what = "same objects" if shared else "equal objects"
            ctx.op(3)
            judge(s.mie_stratified(ks, 1, lmax), 1, what, "first")
            judge(s.mie_stratified(ks[2:3], 1, lmax), 1, what + ", second query", "second", 2)
            judge(s.mie_stratified(ks, 2, lmax), 2, what + ", third query from l=2", "third")
            ctx.check(rl == list(radii) and len(ml) == n + 1 and all(a is b for a, b in zip(ml, objs)), "lists",
                      "%s: the caller's lists were changed to %d materials, radii %s" % (case["id"], len(ml), rl))
        ctx.op()
        s2 = StratifiedMieScattering([mat(x) for x in names], list(radii))
        judge(s2.mie_stratified(ks[1:2], lmax, lmax), lmax, "single order", "lmax", 1)
        if n == 2:
            ctx.op(2)
            c = scattering.coated_miescattering(mat(names[0]), mat(names[1]), mat(names[2]))
            judge(c.mie_coated(ks, 1, lmax, radii[0], radii[1]), 1, "coated sphere", "coated")
            judge(c.mie_coated(ks[3:4], 3, lmax, radii[0], radii[1]), 3, "coated sphere from l=3", "coated", 3)
        if n == 1:
            ctx.op()
            judge(scattering.scattering(mat(names[0]), mat(names[1])).mie(ks, 1, lmax, radii[0]), 1, "solid", "solid")

"""Gaunt coefficients against exact integer arithmetic."""
import numpy as np
from cython_gaunt import gaunt
from .. import ref

ID = "C03"
TIMEOUT = 200
RULE = ("one case per pair (l, l'): every order m from -min-2 to min+2, every entry of the returned "
        "array; non-trivial: m inside the triangle")
BOUNDS = {"quick": "all 1 <= l, l' <= 60 and all m; sectors m = 0, 1, 2, 7, l/2, l-2..l+1 for 16 degrees up to 80",
          "thorough": "all 1 <= l, l' <= 72 and all m; degrees up to 80 on a lattice of m"}
ASSUMPTIONS = ["Racah's formula in exact integers is the oracle (validated against sympy)",
               "tolerance 1e-8 relative up to degree 32, 1e-9 absolute up to degree 80: the recurrence "
               "is unstable beyond (known finding at degree 180)"]


def cases(tier):
    n = 60 if tier == "quick" else 72
    out = [{"id": "%d,%d" % (l, lp), "l": l, "lp": lp, "ms": "all"}
           for l in range(1, n + 1) for lp in range(1, n + 1)]
    big = [61, 62, 63, 64, 65, 66, 70, 72, 75, 80] if tier == "quick" else [73, 75, 76, 78, 80]
    small = [1, 2, 3, 10, 20, 33, 47] + big
    for l in big:
        for lp in small:
            for a, b in {(l, lp), (lp, l)} if lp not in big else {(l, lp)}:
                out.append({"id": "%d,%d" % (a, b), "l": a, "lp": b, "ms": "some"})
    out.append({"id": "180,109", "l": 180, "lp": 109, "ms": [109]})
    out.sort(key=lambda c: (c["l"] + c["lp"], c["l"]))
    return out


def run(case, ctx):
    l, lp = case["l"], case["lp"]
    mm = min(l, lp)
    if case["ms"] == "all":
        ms = list(range(-mm - 2, mm + 3))
    elif case["ms"] == "some":
        s = {0, 1, 2, 7, mm - 2, mm - 1, mm, mm // 2, mm + 1}
        ms = sorted({m for m in s if m >= 0} | {-m for m in s if m >= 0})
    else:
        ms = case["ms"]
    n = (l + lp - abs(l - lp)) // 2 + 1
    top = max(l, lp)
    rt = 1e-8 if top <= 32 else 1e-5
    for m in ms:
        ctx.op()
        got = gaunt(l, lp, m)
        ctx.state(l, lp, m)
        want = np.zeros(n) if abs(m) > mm else \
            np.array([float(v) for v in ref.gaunt(min(l, lp), max(l, lp), abs(m))])
        at = 0 if abs(m) > mm else np.where(want == 0, 1e-11, 0) if top <= 32 else 1e-9
        ctx.close(got, want, "m=%d" % m, rt, at, "Gaunt(%d,%d,%d)" % (l, lp, m))

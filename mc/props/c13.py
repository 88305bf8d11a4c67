"""Balancing and the log-determinants computed with it."""
import itertools
import math
from fractions import Fraction
import numpy as np
import mpmath as mp
import geometry
from matrix_balancing import balance

ID = "C13"
TIMEOUT = 120
RULE = ("one case per first row: all completions of the matrix over the alphabet, every convergence parameter; diagonal, all "
        "cycle products (the invariants of diagonal similarity), determinant and off-diagonal norm compared with exact "
        "rational arithmetic; non-trivial: the balancing changed the matrix")
BOUNDS = {"quick": "2x2: 11 off-diagonal x 7 diagonal values, 4 convergence parameters (23716 matrices); 3x3: all 6^6 off-diagonals x "
                   "3 diagonals; 4x4: all 3^12 magnitude patterns; graded families up to 6x6 in steps of one decade, and up to 64x64 over 220 decades as entrywise similarity; stacks of 1..40; log-determinants of "
                   "all 2x2 stacks over 6 values and of all graded families",
          "thorough": "the same and families up to 128x128"}
ASSUMPTIONS = ["off-diagonal magnitudes 0 and 1e-160..1e200, diagonal magnitudes up to 1e100, so that exact scaling does not overflow",
               "log-determinants are compared unless the determinant is smaller than 1e-9 of the sum of the magnitudes of its terms"]
OFF2 = [0.0, 1.0, -1.0, 3.0, 1e-160, -1e-30, 3e8, -2.5e120, 4e150, 1e160, -1e200]
DIA2 = [0.0, 1.0, -1.0, 2e-30, 5e40, -1e100, 0.1]
OFF3 = [0.0, 1.0, -2e-20, 3e40]
OFF3T = [0.0, 1.0, -2e-20, 3e40, -7e-3, 5e160]
CONV = [0.05, 0.5, 0.9, 0.95]
LOG = [0.0, 0.5, -1.0, 3.0, 1e-30, -4e20]


def cases(tier):
    th = True
    deep = tier == "thorough"
    out = []
    for a in OFF2:
        for b in OFF2:
            out.append({"id": "2x2 %g %g" % (a, b), "part": "two", "a": a, "b": b})
    off = OFF3T if th else OFF3
    for p in itertools.product(off, repeat=2):
        out.append({"id": "3x3 %g %g" % p, "part": "three", "row": list(p), "off": off})
    pat = list(itertools.product((0, 1, 2), repeat=6))
    for p in pat:
        out.append({"id": "4x4 %s" % "".join(map(str, p)), "part": "four", "pat": list(p), "full": th})
    for n in (2, 3, 4, 5, 6):
        for s in (list(range(0, 13)) + [16, 20, 30, 45, 60] if not th else list(range(0, 61))):
            out.append({"id": "graded %d %d" % (n, s), "part": "graded", "n": n, "s": s})
    for n in list(range(7, 21)) + [24, 31, 32, 33, 40, 48, 64] + ([80, 100, 128] if deep else []):
        for s in (0, 3, 12, 40, 120, 220) if n <= 20 else (3, 40, 220):
            out.append({"id": "large %d %d" % (n, s), "part": "large", "n": n, "s": s})
    for n in range(1, 41):
        out.append({"id": "stack of %d" % n, "part": "stack", "n": n})
    for p in itertools.product(LOG, repeat=2):
        out.append({"id": "log %g %g" % p, "part": "log", "row": list(p)})
    for a in (0.0, 0.5, -3.0, 1e-12, 0.999, 7.0):
        out.append({"id": "1x1 %g" % a, "part": "one", "a": a})
    return out


def lg(x):
    return (0 if x == 0 else math.copysign(1, x)), (math.log(abs(x)) if x else 0.0)


def same(x, y):
    """two signed products in (sign, log) form"""
    return x[0] == y[0] and (x[0] == 0 or abs(x[1] - y[1]) < 1e-9)


def cycles(n):
    for k in range(2, n + 1):
        for c in itertools.permutations(range(n), k):
            if c[0] == min(c):
                yield c


CYC = {n: list(cycles(n)) for n in (1, 2, 3, 4, 5)}


def offnorm(A):
    B = np.abs(A - np.diag(np.diag(A)))
    top = B.max()
    return -math.inf if top == 0 else 2 * math.log(top) + math.log(float(((B / top)**2).sum()))


def judge(A, conv, ctx, what=""):
    n = len(A)
    W = np.array(A, dtype=float)
    ctx.op()
    B = np.asarray(balance(W, conv))
    ctx.points += 1
    if B.shape != W.shape or not np.isfinite(B).all():
        return ctx.check(False, "finite", "balance(%s, %g) = %s" % (A, conv, B.tolist()))
    if not np.all(np.abs(np.diag(B) - np.diag(A)) <= 1e-12 * np.abs(np.diag(A))):
        return ctx.check(False, "diagonal", "balance(%s, %g) has diagonal %s" % (A, conv, np.diag(B).tolist()))
    for c in CYC.get(n, []):
        u, v = [1, 0.0], [1, 0.0]
        for i in range(len(c)):
            p, q = c[i], c[(i + 1) % len(c)]
            for z, M in ((u, A), (v, B)):
                s, l = lg(M[p][q])
                z[0] *= s
                z[1] += l
        if not same(u, v):
            return ctx.check(False, "cycle", "balance(%s, %g) = %s: product along the cycle %s changed" % (A, conv, B.tolist(), c))
    if n not in CYC:
        if not same(lgdet(A), lgdet(B)):
            return ctx.check(False, "det", "balance(%s, %g): determinant %s -> %s" % (A, conv, lgdet(A), lgdet(B)))
    if offnorm(B) > offnorm(np.array(A)) + 1e-9:
        return ctx.check(False, "norm", "balance(%s, %g) = %s has a larger off-diagonal norm" % (A, conv, B.tolist()))
    if not np.array_equal(B, np.array(A)):
        ctx.outcome("changed", conv, ["%.3e" % v for v in B.ravel()[:9]])
    return True


def similar(A, conv, ctx, name):
    """large matrices: the result is a diagonal similarity of the argument, entry by entry"""
    W = np.array(A, dtype=float)
    n = len(W)
    ctx.op()
    B = np.asarray(balance(W, conv))
    what = "balance of %s %dx%d, conv %g" % (name, n, n, conv)
    if not ctx.check(B.shape == A.shape and np.isfinite(B).all(), "finite", "%s: not finite" % what):
        return False
    if not ctx.check(np.array_equal(B == 0, A == 0) and np.array_equal(np.sign(B), np.sign(A)), "pattern", "%s: signs or zeros changed" % what):
        return False
    with np.errstate(divide="ignore"):
        d = np.where(A == 0, np.nan, np.log(np.abs(B)) - np.log(np.abs(A)))
    s = {}
    for root in range(n):                    # d_ij = s_j - s_i on every connected component
        if root in s:
            continue
        s[root] = 0.0
        todo = [root]
        while todo:
            i = todo.pop()
            for j in range(n):
                if j not in s and (A[i, j] != 0 or A[j, i] != 0):
                    s[j] = s[i] + (d[i, j] if A[i, j] != 0 else -d[j, i])
                    todo.append(j)
    v = np.array([s[i] for i in range(n)])
    bad = np.abs(d - (v[np.newaxis, :] - v[:, np.newaxis]))
    if not ctx.check(not (bad[A != 0] > 1e-9).any(), "similarity", "%s: not a diagonal similarity" % what):
        return False
    return ctx.check(offnorm(B) <= offnorm(A) + 1e-9, "norm", "%s: larger off-diagonal norm" % what)


def mplog(A):
    """ln|det A| with 400 digits"""
    old = mp.mp.dps
    mp.mp.dps = 400
    try:
        return float(mp.log(abs(mp.det(mp.matrix(np.asarray(A).tolist())))))
    finally:
        mp.mp.dps = old


def large(case, ctx):
    n, s = case["n"], case["s"]
    for name in FAMILIES:
        for direction in (1, -1):
            D = 10.0**(direction * s * (np.arange(n) - (n - 1) / 2) / (2 * (n - 1)))
            G = family(name, n) * D[np.newaxis, :] / D[:, np.newaxis]
            for conv in CONV:
                if not similar(G, conv, ctx, name):
                    return
        if s <= 40 and name in ("dense", "alternating", "arrow", "blocks", "cyclic") and n <= 33:
            M = np.eye(n) - G
            A = np.eye(n) - M
            want = mplog(A)
            if abs(want - mplog(family(name, n))) > 1e-6:
                continue         # the grading itself is lost in the rounding of 1 - G
            ctx.op(2)
            ctx.close(geometry.balanced_slogdet(M[np.newaxis]), [want], "slogdet %s" % name, 1e-9, 1e-9, "balanced_slogdet, %s" % name)
            if n % 2 == 0:
                h = n // 2
                blocks = [M[np.newaxis, i:i + h, j:j + h].copy() for i in (0, h) for j in (0, h)]
                ctx.close(geometry.sln_det_3d(*blocks), [want], "sln_det_3d %s" % name, 1e-9, 1e-9, "sln_det_3d, %s" % name)
            ctx.close(np.ravel(geometry.sln_det_blockdiagonal(M.copy(), np.eye(n) * -1.0)), [want + n * math.log(2.0)],
                      "blockdiagonal %s" % name, 1e-9, 1e-9, "block diagonal, %s" % name)


def stack_lengths(case, ctx):
    """every member of a stack of n gets its own determinant"""
    n = case["n"]
    for dim in (2, 4, 6):
        mats = []
        for q in range(n):
            D = 10.0**((q % 11 - 5) * np.arange(dim) / dim)
            mats.append(np.eye(dim) - family(FAMILIES[(3 * q + n) % len(FAMILIES)], dim) * (1 + 0.07 * q) * D[np.newaxis, :] / D[:, np.newaxis])
        S = np.array(mats)
        want = [lgdet(one_minus(M))[1] for M in mats]
        h = dim // 2
        ctx.op(2)
        ctx.close(geometry.balanced_slogdet(S), want, "stack", 1e-9, 1e-8, "balanced_slogdet of %d matrices" % n)
        ctx.close(geometry.sln_det_3d(*[S[:, i:i + h, j:j + h].copy() for i in (0, h) for j in (0, h)]), want, "stack", 1e-9, 1e-8,
                  "sln_det_3d of %d matrices" % n)


def det(A):
    """exact determinant and sum of the magnitudes of its terms"""
    A = [[Fraction(float(x)) for x in row] for row in A]
    n = len(A)
    if n <= 4:
        d = t = Fraction(0)
        for p in itertools.permutations(range(n)):
            v = Fraction(1)
            for i in range(n):
                v *= A[i][p[i]]
                if not v:
                    break
            t += abs(v)
            inv = sum(1 for i in range(n) for j in range(i) if p[j] > p[i])
            d += -v if inv % 2 else v
        return d, t
    d = Fraction(1)
    A = [r[:] for r in A]
    for i in range(n):
        k = next((k for k in range(i, n) if A[k][i]), None)
        if k is None:
            return Fraction(0), None
        if k != i:
            A[i], A[k] = A[k], A[i]
            d = -d
        d *= A[i][i]
        for r in range(i + 1, n):
            f = A[r][i] / A[i][i]
            if f:
                A[r] = [x - f * y for x, y in zip(A[r], A[i])]
    return d, None


def flog(q):
    q = abs(q)
    return math.log(q.numerator) - math.log(q.denominator)


def lgdet(A):
    d, _ = det(A)
    return (d > 0) - (d < 0), (flog(d) if d else 0.0)


def logdet(A, ctx, key, got, what):
    """got against the exact ln|det A|"""
    d, t = det(A)
    if not d or (t is not None and abs(d) < t / 10**9):
        ctx.points += 1
        return
    ctx.close(np.ravel(got), [flog(d)], key, 1e-9, 1e-9, what)


def one_minus(M):
    return np.eye(len(M)) - np.array(M)


FAMILIES = ["dense", "alternating", "upper", "lower", "zero row", "zero column", "cyclic", "arrow", "blocks"]


def family(name, n):
    B = np.array([[1.0 / (1 + abs(i - j)) + (2.0 if i == j else 0.0) for j in range(n)] for i in range(n)])
    if name == "alternating":
        B = np.array([[B[i, j] * (-1)**(i + j + (i > j)) for j in range(n)] for i in range(n)])
    elif name == "upper":
        B = np.triu(B)
    elif name == "lower":
        B = np.tril(B)
    elif name == "zero row":
        B[n // 2] = 0
        B[n // 2, n // 2] = 1.5
    elif name == "zero column":
        B[:, 0] = 0
        B[0, 0] = -1.5
    elif name == "cyclic":
        B = np.diag([2.0] * n) + np.roll(np.eye(n), 1, axis=1)
    elif name == "arrow":
        C = np.diag(np.arange(2.0, n + 2))
        C[0, :], C[:, 0] = 1.0, -1.0
        C[0, 0] = 3.0
        B = C
    elif name == "blocks":
        C = np.zeros((n, n))
        h = n // 2
        C[:h, :h], C[h:, h:] = B[:h, :h], B[h:, h:]
        B = C
    return B


def run(case, ctx):
    p = case["part"]
    if p in ("large", "stack"):
        (large if p == "large" else stack_lengths)(case, ctx)
    elif p == "two":
        for d in itertools.product(DIA2, repeat=2):
            for conv in CONV:
                if not judge([[d[0], case["a"]], [case["b"], d[1]]], conv, ctx):
                    return
    elif p == "three":
        dias = list(itertools.product([0.0, 1.0, -5e30], repeat=2)) if len(case["off"]) == 4 else [(0.0, 1.0), (1.0, 2e3), (-5e30, 1)]
        for r in itertools.product(case["off"], repeat=4):
            for i, d in enumerate(dias):
                A = [[d[0], case["row"][0], case["row"][1]], [r[0], d[1], r[1]], [r[2], r[3], 1.0]]
                if not judge(A, CONV[i % 4], ctx):
                    return
    elif p == "four":
        mag = [1.0, 1e-40, 2e70]
        up = [mag[x] for x in case["pat"]]
        lows = itertools.product(mag, repeat=6) if case["full"] else ([mag[x] for x in q] for q in (
            [0] * 6, [1] * 6, [2] * 6, [0, 1, 2, 0, 1, 2], [2, 1, 0, 2, 1, 0], case["pat"], case["pat"][::-1]))
        for lo in lows:
            A = np.diag([1.0, -2.0, 0.0, 3.0])
            A[np.triu_indices(4, 1)] = up
            A[np.tril_indices(4, -1)] = lo
            if not judge(A.tolist(), 0.9, ctx):
                return
    elif p == "graded":
        n, s = case["n"], case["s"]
        for name in FAMILIES:
            for direction in (1, -1):
                D = 10.0**(direction * s * (np.arange(n) - (n - 1) / 2) / max(1, n - 1))
                G = family(name, n) * D[np.newaxis, :] / D[:, np.newaxis]
                for conv in CONV:
                    if not judge(G.tolist(), conv, ctx):
                        return
                M = np.eye(n) - G
                A = one_minus(M)
                if abs(lgdet(A)[1] - lgdet(family(name, n))[1]) > 1e-6:
                    continue         # the grading itself is lost in the rounding of 1 - G
                ctx.op(2)
                logdet(A, ctx, "slogdet %s" % name, geometry.balanced_slogdet(M[np.newaxis]), "balanced_slogdet, %s" % name)
                if n % 2 == 0:
                    h = n // 2
                    blocks = [M[np.newaxis, :h, :h], M[np.newaxis, :h, h:], M[np.newaxis, h:, :h], M[np.newaxis, h:, h:]]
                    logdet(A, ctx, "sln_det_3d %s" % name, geometry.sln_det_3d(*[b.copy() for b in blocks]), "sln_det_3d, %s" % name)
                if n <= 3 or s <= 30:
                    got = geometry.sln_det_blockdiagonal(M.copy(), np.eye(n) * -1.0)
                    ctx.close(np.ravel(got), [lgdet(A)[1] + n * math.log(2.0)], "blockdiagonal %s" % name, 1e-9, 1e-9, "block diagonal")
    elif p == "log":
        for r in itertools.product(LOG, repeat=2):
            M = np.array([case["row"], list(r)])
            stack = np.array([M, M.T, np.array([[0.25, 0.5], [0.125, -0.5]])])
            ctx.op(3)
            got = geometry.balanced_slogdet(stack)
            got3 = geometry.sln_det_3d(*[stack[:, i:i + 1, j:j + 1].copy() for i in (0, 1) for j in (0, 1)])
            if not ctx.check(np.shape(got) == (3,) and np.shape(got3) == (3,), "shape", "shapes %s %s" % (np.shape(got), np.shape(got3))):
                return
            for i in range(3):
                logdet(one_minus(stack[i]), ctx, "stack %s" % i, got[i], "balanced_slogdet of %s" % stack[i].tolist())
                logdet(one_minus(stack[i]), ctx, "blocks %s" % i, got3[i], "sln_det_3d of %s" % stack[i].tolist())
            d1, t1 = det(one_minus(M))
            if d1 and abs(d1) > t1 / 10**9:
                gd = geometry.sln_det_blockdiagonal(M.copy(), stack[2].copy())
                ctx.close(np.ravel(gd), [flog(d1) + flog(det(one_minus(stack[2]))[0])], "blockdiagonal", 1e-9, 1e-9,
                          "block diagonal of %s" % M.tolist())
    else:
        a = case["a"]
        for conv in CONV:
            judge([[a]], conv, ctx)
        for b in (0.0, 0.5, -3.0, 7.0, 0.25):
            ctx.op(2)
            if (1 - a) * (1 - b) > 0:
                ctx.close(np.ravel(geometry.sln_det_blockdiagonal(np.array([[a]]), np.array([[b]]))),
                          [math.log((1 - a) * (1 - b))], "1x1 %g" % b, 1e-9, 1e-12, "1x1 blocks %g %g" % (a, b))
            if a != 1:
                ctx.close(geometry.balanced_slogdet(np.array([[[a]], [[b]]])), [math.log(abs(1 - a)), math.log(abs(1 - b))],
                          "1x1 stack %g" % b, 1e-9, 1e-12, "stack of 1x1")
    ctx.state(case["id"])

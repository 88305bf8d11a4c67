"""Stacked block-matrix algebra and trace-invariant rescaling."""
import itertools
import math
from fractions import Fraction
import numpy as np
import geometry

ID = "C14"
TIMEOUT = 120
RULE = ("one case per first matrix of the stack (2x2 over the alphabet) or per structured family: all second and third members; "
        "every result is compared with exact rational arithmetic, in every order of the stack; non-trivial: different "
        "members in one stack")
BOUNDS = {"quick": "all 2x2 over {-1,0,2,0.5}: every ordered pair (65536) as product and trace; stacks of 1..3 with every ninth matrix as second member, in all orders; 7 families of "
                   "dimension 4 and 6, all ordered pairs and triples and nearly equal members (5e-6, 1e-7, 1e-8), dimensions 3, 5, 8, 10, 12, stacks of 1..40; rescaling: dimension 1..5, 8, 13, 20, 1..3 channels, all 3^5 placements "
                   "of corner magnitudes",
          "thorough": "dimension 8 and 16, five values per entry, 4 channels"}
ASSUMPTIONS = ["inverses are asked for only where they exist and condition numbers stay below 1e4"]
VALS = [-1.0, 0.0, 2.0, 0.5]
FAM = ["shifted", "hilbert", "toeplitz", "signs", "lower", "upper", "mixed"]


def fam(name, n):
    i, j = np.indices((n, n)).astype(float)
    if name == "shifted":
        return np.eye(n) * 2.0 + np.eye(n, k=1)
    if name == "hilbert":
        return 1.0 / (i + j + 1) + np.eye(n)
    if name == "toeplitz":
        return 1.0 / (1 + np.abs(i - j)) * np.where(i > j, -1, 1) + np.eye(n)
    if name == "signs":
        return np.where((i * 3 + j * 5) % 7 < 3, 0.5, -0.25) + 2.0 * np.eye(n)
    if name == "lower":
        return np.tril((i + 2 * j) % 3) + np.eye(n) * 1.5
    if name == "upper":
        return np.triu((i * j) % 4 - 1.0) + np.eye(n) * 3.0
    return (i * i - j) % 5 - 2.0 + 5.0 * np.eye(n)


def cases(tier):
    th = tier == "thorough"
    vals = VALS + [3.0] if th else VALS
    out = [{"id": "2x2 %s" % (p,), "part": "two", "A": list(p), "vals": vals} for p in itertools.product(vals, repeat=4)]
    for n in range(1, 41):
        out.append({"id": "length %d" % n, "part": "len", "n": n})
    for n in [3, 5, 8, 10, 12] + ([16] if th else []):
        for a in FAM:
            out.append({"id": "dimension %d %s" % (n, a), "part": "dim", "n": n, "a": a})
    for n in ([2, 4, 6] + ([8] if th else [])):
        for a in FAM:
            out.append({"id": "family %s %d" % (a, n), "part": "fam", "n": n, "a": a})
    for n in (1, 2, 3, 4, 5, 8, 13, 20):
        for p in itertools.product((-40.0, 0.0, 300.0), repeat=2):
            out.append({"id": "scaling %d %s" % (n, p), "part": "scale", "n": n, "p": list(p), "ch": 4 if th else 3})
    return out


# ---- exact oracles
def fr(M):
    return [[Fraction(float(x)) for x in r] for r in M]


def mul(A, B):
    A, B = fr(A), fr(B)
    return np.array([[float(sum(A[i][k] * B[k][j] for k in range(len(B)))) for j in range(len(B[0]))] for i in range(len(A))])


def inv(A):
    A = fr(A)
    n = len(A)
    R = [[Fraction(int(i == j)) for j in range(n)] for i in range(n)]
    for i in range(n):
        k = next((k for k in range(i, n) if A[k][i]), None)
        if k is None:
            return None
        A[i], A[k], R[i], R[k] = A[k], A[i], R[k], R[i]
        f = A[i][i]
        A[i], R[i] = [x / f for x in A[i]], [x / f for x in R[i]]
        for r in range(n):
            if r != i and A[r][i]:
                f = A[r][i]
                A[r] = [x - f * y for x, y in zip(A[r], A[i])]
                R[r] = [x - f * y for x, y in zip(R[r], R[i])]
    return np.array([[float(x) for x in r] for r in R])


def ldet(A):
    A = fr(A)
    n, d = len(A), Fraction(1)
    for i in range(n):
        k = next((k for k in range(i, n) if A[k][i]), None)
        if k is None:
            return None
        A[i], A[k] = A[k], A[i]
        d *= A[i][i]
        for r in range(i + 1, n):
            f = A[r][i] / A[i][i]
            if f:
                A[r] = [x - f * y for x, y in zip(A[r], A[i])]
    return math.log(abs(d.numerator)) - math.log(d.denominator)


def regular(A):
    """invertible and well enough conditioned for an accuracy of 1e-9"""
    with np.errstate(all="ignore"):
        return inv(A) is not None and np.linalg.cond(A) < 1e4


def blockable(A):
    """the block inverse exists: upper left block and matrix are regular"""
    h = len(A) // 2
    return regular(A[:h, :h]) and regular(A)


def solved(m1, m2):
    i = inv(np.eye(len(m1)) - m1)
    return float(np.trace(mul(i, m2)))


TOL = dict(rtol=1e-9, atol=1e-10)


def stacks(case, ctx, mats):
    """all orders of the stack: products, inverses, log-determinants, assembly"""
    n = len(mats[0])
    perms = list(itertools.permutations(range(len(mats)))) if len(mats) <= 3 else [tuple(range(len(mats))), tuple(range(len(mats)))[::-1]]
    for p in perms:
        S = np.array([mats[i] for i in p])
        R = np.array([mats[i] for i in p[1:] + p[:1]])
        ctx.op(2)
        ctx.close(geometry.dot_3d_matrices(S, R), [mul(a, b) for a, b in zip(S, R)], "product", what="product of stacks", **TOL)
        good = [a for a in S if regular(a)]
        if good:
            G = np.array(good)
            ctx.close(geometry.inv_3d_matrix(G), [inv(a) for a in G], "inverse", what="inverse of a stack", **TOL)
        if n % 2 == 0:
            good = [a for a in S if blockable(a)]
            if good:
                G = np.array(good)
                ctx.op()
                ctx.close(geometry.inv_3d_blockmatrix(G), [inv(a) for a in G], "block inverse", what="block inverse of a stack", **TOL)
            good = [(a, b) for a, b in zip(S, R) if blockable(np.eye(n) - a)]
            if good:
                A, B = np.array([x for x, _ in good]), np.array([x for _, x in good])
                ctx.op()
                ctx.close(geometry.trace_dot_3d(A, B), [solved(a, b) for a, b in good], "trace", what="trace of a solved system", **TOL)
            h = n // 2
            blk = [np.ascontiguousarray(S[:, i:i + h, j:j + h]) for i in (0, h) for j in (0, h)]
            ctx.op(3)
            ctx.close(geometry.matrix_append([b.copy() for b in blk]), S, "assembly", what="assembly of blocks", **TOL)
            reg = [i for i in range(len(S)) if regular(np.eye(n) - S[i])]
            if reg:
                want = [ldet(np.eye(n) - S[i]) for i in reg]
                ctx.close(geometry.sln_det_3d(*[b[reg] for b in blk]), want, "sln_det_3d", what="log-determinant from blocks", **TOL)
                ctx.close(geometry.balanced_slogdet(S[reg]), want, "slogdet", what="log-determinant of a stack", **TOL)
            # unequal blocks must not be mixed up
            ctx.close(geometry.matrix_append([blk[1], blk[2], blk[3], blk[0]]),
                      np.concatenate([np.concatenate([blk[1], blk[2]], axis=2), np.concatenate([blk[3], blk[0]], axis=2)], axis=1),
                      "assembly order", what="assembly of other blocks", **TOL)


def run_scale(case, ctx):
    n = case["n"]
    B, C = case["p"]
    for ch in range(1, case["ch"] + 1):
        for A in (-40.0, 0.0, 300.0):
            for mid in (-3.0, 5.0):
                for big in range(ch):
                    i, j, s = np.indices((n, n, ch)).astype(float)
                    w = max(1, n - 1)
                    M = A + (B - A) * np.maximum(j - i, 0) / w + (C - A) * np.maximum(i - j, 0) / w + mid * np.cos(i * 3 + j * 5 + s)
                    M = M + np.where(s == big, 1.5, 0.0)
                    ctx.op(2)
                    R = np.asarray(geometry.single_k_scale(M.copy()))
                    if not ctx.check(R.shape == M.shape and np.isfinite(R).all(), "shape", "shape %s" % (R.shape,)):
                        return
                    invariant(R - M, n, ch, ctx, "single_k_scale")
                    # stack of different matrices
                    S = np.array([M, M.transpose(1, 0, 2), 0.1 * M]) / max(1.0, np.abs(M).max() / 200.0)
                    E = np.asarray(geometry.dynamic_scaling(S.copy()))
                    if not ctx.check(E.shape == S.shape and (E >= 0).all(), "dynamic", "dynamic_scaling: shape %s" % (E.shape,)):
                        return
                    with np.errstate(divide="ignore"):
                        lnE = np.log(E)
                    for q in range(3):
                        d = np.where(E[q] > 0, lnE[q] - S[q], np.nan)
                        if np.isnan(d).any():
                            ctx.points += 1
                            continue
                        invariant(d, n, ch, ctx, "dynamic_scaling, member %d" % q)
                        ctx.close(lnE[q], np.asarray(geometry.single_k_scale(S[q].copy())), "member", 1e-9, 1e-9,
                                  "dynamic_scaling member %d against the matrix alone" % q)
    ctx.state(case["id"])


def invariant(d, n, ch, ctx, what):
    ctx.points += 1
    tol = 1e-8 * (1 + np.abs(d).max())
    if np.abs(d[np.arange(n), np.arange(n)]).max() > tol:
        ctx.check(False, "diagonal", "%s changes the diagonal" % what)
    if np.abs(d + d.transpose(1, 0, 2)).max() > tol:
        ctx.check(False, "opposite", "%s changes the product of opposite elements" % what)
    if np.abs(d - d[:, :, :1]).max() > tol:
        ctx.check(False, "channels", "%s scales the channels of an element differently" % what)
    s = d[0, :, 0]                    # similarity: d_ij = s_j - s_i
    if np.abs(d[:, :, 0] - (s[np.newaxis, :] - s[:, np.newaxis])).max() > tol:
        ctx.check(False, "similarity", "%s is not a similarity transformation" % what)
    ctx.outcome(what, "%.6e" % d[0, -1, 0])


def run(case, ctx):
    if case["part"] == "two":
        A = np.array(case["A"]).reshape(2, 2)
        allm = [np.array(p).reshape(2, 2) for p in itertools.product(case["vals"], repeat=4)]
        # one long stack per first factor: every ordered pair
        S, R = np.array([A] * len(allm)), np.array(allm)
        ctx.op(2)
        ctx.close(geometry.dot_3d_matrices(S, R), np.array([[[A[i, 0] * b[0, j] + A[i, 1] * b[1, j] for j in (0, 1)]
                                                          for i in (0, 1)] for b in allm]), "pairs", what="all products", **TOL)
        if blockable(np.eye(2) - A):
            i = inv(np.eye(2) - A)
            ctx.close(geometry.trace_dot_3d(S, R), np.array([np.sum(i * b.T) for b in allm]), "pairs trace", what="all traces", **TOL)
        stacks(case, ctx, [A])
        for k in range(0, len(allm), 9):
            stacks(case, ctx, [A, allm[k]])
        stacks(case, ctx, [A, allm[7], allm[-5]])
        stacks(case, ctx, [A, A, allm[100]])
        ctx.state(case["id"])
    elif case["part"] == "dim":
        n = case["n"]
        i = FAM.index(case["a"])
        stacks(case, ctx, [fam(case["a"], n)])
        stacks(case, ctx, [fam(FAM[(i + 3) % 7], n).T.copy(), fam(case["a"], n) * 0.5])
        ctx.state(case["id"])
    elif case["part"] == "len":
        for dim in (2, 4):
            stacks(case, ctx, [fam(FAM[(3 * q) % 7], dim) * (0.4 + 0.1 * (q % 5)) for q in range(case["n"])])
        ctx.state(case["id"])
    elif case["part"] == "fam":
        n = case["n"]
        A = fam(case["a"], n)
        stacks(case, ctx, [A])
        for b in FAM:
            stacks(case, ctx, [A, fam(b, n) * 0.5])
        # members that are nearly the same
        for d in (5e-6, 1e-7, 1e-8):
            stacks(case, ctx, [A, A * (1 + d)])
            for q in ((0, 0), (n - 1, 0), (n - 1, n - 1)):
                B = A.copy()
                B[q] += d
                stacks(case, ctx, [A, B, A.T.copy()])
        for b, c in itertools.combinations(FAM, 2):
            stacks(case, ctx, [A, fam(b, n).T.copy(), fam(c, n) * 3.0])
        ctx.state(case["id"])
    else:
        run_scale(case, ctx)

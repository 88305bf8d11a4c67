"""Reference model of the physics, independent of /repo.

Everything is evaluated with mpmath at (at least) 40 digits, without scaling,
without logarithms, without caches and one wavenumber at a time.  Nothing in
this file imports code from /repo; materials enter as plain oscillator lists.

Conventions (imaginary wavenumber k, spherical modified Bessel functions)
    i_l(x) = sqrt(pi/2x) I_{l+1/2}(x),  k_l(x) = sqrt(pi/2x) K_{l+1/2}(x)
"""
from functools import lru_cache
import mpmath as mp
from mpmath import mpf

mp.mp.dps = 40
OMEGA = mpf(2.998e8) / mpf(1e-6)     # frequency <-> wavenumber in 1/micron


# ------------------------------------------------------------------ materials
PEC = "PEC"


def eps(mat, k):
    """relative permittivity; mat = ("lorentz"|"smith", e_properties, b_properties)"""
    kind, e, b = mat
    k = mpf(k)
    val = mpf(1)
    for wP, wR, g in e:
        wP, wR, g = mpf(wP) / OMEGA, mpf(wR) / OMEGA, mpf(g) / OMEGA
        if kind == "smith":
            val += wP**2 / (k**2 + g * k) * (1 - mpf(0.49) * g / (k + g))
        elif wP != 0:
            val += wP**2 / (wR**2 + k**2 + g * k)
    return val


def mu(mat, k):
    kind, e, b = mat
    if len(b) == 0:
        return mpf(1)
    return 1 + (mpf(b[0]) - 1) / (1 + mpf(k) / (mpf(b[1]) / OMEGA))


# ------------------------------------------------------------------ Bessel
@lru_cache(maxsize=20000)
def bessel_k(x, lmax):
    x = mpf(x)
    out = [mp.pi / (2 * x) * mp.exp(-x)]
    out.append(out[0] * (1 + 1 / x))
    for l in range(1, lmax):
        out.append(out[l - 1] + (2 * l + 1) / x * out[l])
    return out[:lmax + 1]


@lru_cache(maxsize=20000)
def bessel_i(x, lmax):
    """downward (Miller) recurrence, normalised with i_0 = sinh(x)/x"""
    x = mpf(x)
    N = lmax + 30 + int(mp.sqrt(lmax**2 + 3 * mp.mp.dps * x))
    hi, lo = mpf(0), mpf(1)
    out = [mpf(0)] * (lmax + 1)
    for l in range(N, -1, -1):
        if l <= lmax:
            out[l] = lo
        hi, lo = lo, hi + (2 * l + 1) / x * lo
    # lo is now the order -1 value: cosh(x)/x; normalise with order 0
    norm = mp.sinh(x) / x / out[0]
    return [o * norm for o in out]


def ln_i(x, lmax):
    return [mp.log(v) for v in bessel_i(x, lmax)]


def ln_k(x, lmax):
    return [mp.log(v) for v in bessel_k(x, lmax)]


def dlog_i(x, l):
    """(x i_l)'/i_l"""
    b = bessel_i(x, l)
    return -l + mpf(x) * b[l - 1] / b[l]


def dlog_k(x, l):
    """(x k_l)'/k_l"""
    b = bessel_k(x, max(l, 1))
    return -l - mpf(x) * b[l - 1] / b[l]


# ------------------------------------------------------------------ Gaunt
_F = [1]


def fac(n):
    while len(_F) <= n:
        _F.append(_F[-1] * len(_F))
    return _F[n]


@lru_cache(maxsize=400000)
def _w3j_sq(l, lp, L, m):
    """signed square of the 3j symbol (l lp L; m -m 0) as exact integers
       (sign, numerator, denominator) -- Racah's formula in integer arithmetic"""
    if abs(m) > min(l, lp):
        return 0, 0, 1
    a, b, c, al, be = l, lp, L, m, -m
    t0, t1 = max(0, b - c - al, a - c + be), min(a + b - c, a - al, b + be)
    # common denominator: every summand is an integer after multiplication with binomials
    from math import comb
    s = 0
    for t in range(t0, t1 + 1):
        term = comb(a + b - c, t) * comb(a - b + c, a - al - t) * comb(-a + b + c, b + be - t)
        s += -term if t & 1 else term
    # 3j = (-1)^(a-b) * sqrt(X) * s with
    num = fac(a + al) * fac(a - al) * fac(b + be) * fac(b - be) * fac(c) * fac(c)
    den = fac(a + b + c + 1) * fac(a + b - c) * fac(a - b + c) * fac(-a + b + c)
    sign = (s > 0) - (s < 0)
    if (a - b) & 1:
        sign = -sign
    return sign, num * s * s, den


def w3j(l, lp, L, m):
    s, n, d = _w3j_sq(l, lp, L, m)
    return s * mp.sqrt(mpf(n) / mpf(d)) if s else mpf(0)


@lru_cache(maxsize=100000)
def gaunt(l, lp, m):
    """integral of Y_{l,m} Y_{lp,-m} Y_{L,0} for L = |l-lp|, |l-lp|+2, .., l+lp"""
    out = []
    for L in range(abs(l - lp), l + lp + 1, 2):
        s0, n0, d0 = _w3j_sq(l, lp, L, 0)
        s1, n1, d1 = _w3j_sq(l, lp, L, m)
        pre = mpf((2 * l + 1) * (2 * lp + 1) * (2 * L + 1)) / (4 * mp.pi)
        out.append(s0 * s1 * mp.sqrt(pre * (mpf(n0) / d0) * (mpf(n1) / d1)) if s0 and s1 else mpf(0))
    return out


# ------------------------------------------------------------------ Mie
def index(mat, k):
    return mp.sqrt(eps(mat, k) * mu(mat, k))


def mie_ext(sphere, medium, k, l, r):
    """exterior scattering coefficients (TE, TM) of a solid sphere"""
    k, r = mpf(k), mpf(r)
    xe = k * r * index(medium, k)
    ie, ke = bessel_i(xe, l)[l], bessel_k(xe, l)[l]
    de, fe = dlog_i(xe, l), dlog_k(xe, l)
    pre = (-1)**l * mp.pi / 2 * ie / ke
    if sphere == PEC:
        return pre, pre * de / fe
    xi = k * r * index(sphere, k)
    di = dlog_i(xi, l)
    mi, me, ei, ee = mu(sphere, k), mu(medium, k), eps(sphere, k), eps(medium, k)
    return (pre * (me * di - mi * de) / (me * di - mi * fe),
            pre * (ee * di - ei * de) / (ee * di - ei * fe))


def mie_int(inner, outer, k, l, r):
    """reflection of outgoing waves back into a cavity filled with inner"""
    k, r = mpf(k), mpf(r)
    xi = k * r * index(inner, k)
    ii, ki = bessel_i(xi, l)[l], bessel_k(xi, l)[l]
    di, fi = dlog_i(xi, l), dlog_k(xi, l)
    pre = (-1)**l * 2 / mp.pi * ki / ii
    if outer == PEC:
        return pre, pre * fi / di
    xe = k * r * index(outer, k)
    fe = dlog_k(xe, l)
    mi, me, ei, ee = mu(inner, k), mu(outer, k), eps(inner, k), eps(outer, k)
    return (pre * (me * fi - mi * fe) / (me * di - mi * fe),
            pre * (ee * fi - ei * fe) / (ee * di - ei * fe))


def _dlogs(x, lmax):
    """i_l, k_l, (x i_l)'/i_l and (x k_l)'/k_l for l = 0 .. lmax (index 0 of the last two unused)"""
    x = mpf(x)
    i, k = bessel_i(x, lmax), bessel_k(x, lmax)
    return (i, k, [None] + [-l + x * i[l - 1] / i[l] for l in range(1, lmax + 1)],
            [None] + [-l - x * k[l - 1] / k[l] for l in range(1, lmax + 1)])


def mie_ext_all(sphere, medium, k, lmax, r):
    """[(TE, TM, i_l/k_l)] for l = 1 .. lmax, as mie_ext"""
    k, r = mpf(k), mpf(r)
    ie, ke, de, fe = _dlogs(k * r * index(medium, k), lmax)
    if sphere != PEC:
        _, _, di, _ = _dlogs(k * r * index(sphere, k), lmax)
        mi, me, ei, ee = mu(sphere, k), mu(medium, k), eps(sphere, k), eps(medium, k)
    out = []
    for l in range(1, lmax + 1):
        q = ie[l] / ke[l]
        pre = (-1)**l * mp.pi / 2 * q
        if sphere == PEC:
            out.append((pre, pre * de[l] / fe[l], q))
        else:
            out.append((pre * (me * di[l] - mi * de[l]) / (me * di[l] - mi * fe[l]),
                        pre * (ee * di[l] - ei * de[l]) / (ee * di[l] - ei * fe[l]), q))
    return out


def mie_int_all(inner, outer, k, lmax, r):
    """[(TE, TM, k_l/i_l)] for l = 1 .. lmax, as mie_int"""
    k, r = mpf(k), mpf(r)
    ii, ki, di, fi = _dlogs(k * r * index(inner, k), lmax)
    if outer != PEC:
        _, _, _, fe = _dlogs(k * r * index(outer, k), lmax)
        mi, me, ei, ee = mu(inner, k), mu(outer, k), eps(inner, k), eps(outer, k)
    out = []
    for l in range(1, lmax + 1):
        q = ki[l] / ii[l]
        pre = (-1)**l * 2 / mp.pi * q
        if outer == PEC:
            out.append((pre, pre * fi[l] / di[l], q))
        else:
            out.append((pre * (me * fi[l] - mi * fe[l]) / (me * di[l] - mi * fe[l]),
                        pre * (ee * fi[l] - ei * fe[l]) / (ee * di[l] - ei * fe[l]), q))
    return out


def mie_layers_all(mats, radii, k, lmax):
    """[(TE, TM, i_l/k_l at the outermost radius)] for l = 1 .. lmax, as mie_layers"""
    k = mpf(k)
    n = len(radii)
    below = [None] * n         # functions just inside interface j
    above = [None] * n         # just outside
    for j in range(n):
        r = mpf(radii[j])
        if mats[j] != PEC:
            below[j] = _dlogs(k * r * index(mats[j], k), lmax)
        above[j] = _dlogs(k * r * index(mats[j + 1], k), lmax)
    out = []
    for l in range(1, lmax + 1):
        row = []
        for par in (mu, eps):
            s = None
            for j in range(n):
                i, kk, di, fk = (a[l] for a in above[j])
                if mats[j] == PEC:
                    s = -i / kk if par is mu else -di * i / (fk * kk)
                    continue
                bi, bk, bdi, bfk = (a[l] for a in below[j])
                w = bdi if j == 0 else (bdi * bi + s * bfk * bk) / (bi + s * bk)
                w = w * par(mats[j + 1], k) / par(mats[j], k)
                s = -(di - w) * i / ((fk - w) * kk)
            row.append((-1)**(l + 1) * mp.pi / 2 * s)
        out.append((row[0], row[1], above[-1][0][l] / above[-1][1][l]))
    return out


def mie_layers(mats, radii, k, l):
    """sphere of concentric layers, mats = [core, .., medium], radii outwards.

       In layer n the radial function is u_n(r) = i_l(x) + s_n k_l(x); tangential
       continuity makes w = (x u)' / (p u) continuous, p = mu (TE) or eps (TM)."""
    k = mpf(k)
    out = []
    for pol in (0, 1):
        par = mu if pol == 0 else eps
        w = None                       # (x u)'/(p u) just inside the interface
        s = None
        for n in range(len(radii)):
            inner, outer, r = mats[n], mats[n + 1], mpf(radii[n])
            if n == 0:
                if inner != PEC:
                    w = dlog_i(k * r * index(inner, k), l) / par(inner, k)
            else:
                x = k * r * index(inner, k)
                i, kk = bessel_i(x, l)[l], bessel_k(x, l)[l]
                w = ((dlog_i(x, l) * i + s * dlog_k(x, l) * kk)
                     / (i + s * kk) / par(inner, k))
            x = k * r * index(outer, k)
            i, kk = bessel_i(x, l)[l], bessel_k(x, l)[l]
            if n == 0 and inner == PEC:
                # tangential E vanishes: TE: u = 0, TM: (x u)' = 0
                s = -i / kk if pol == 0 else -dlog_i(x, l) * i / (dlog_k(x, l) * kk)
            else:
                p = par(outer, k)
                s = -(dlog_i(x, l) - p * w) * i / ((dlog_k(x, l) - p * w) * kk)
        out.append((-1)**(l + 1) * mp.pi / 2 * s)
    return tuple(out)


# ------------------------------------------------------------------ translation
@lru_cache(maxsize=None)
def _sqrt_lpp(lpp, l1, l2):
    return mp.sqrt(mpf(2 * lpp + 1) / (l1 * (l1 + 1) * l2 * (l2 + 1)))


def trans(l1, l2, m, x, ext):
    """(vEE_ab, vEE_ba, vEM_ab, vEM_ba) for x = k n L"""
    b = bessel_k(x, l1 + l2) if ext else bessel_i(x, l1 + l2)
    g = gaunt(l1, l2, m)
    ee = em = ee2 = em2 = mpf(0)
    pre = (-1)**m * mp.sqrt(mp.pi) * (2 / mp.pi if ext else 1)
    for j, lpp in enumerate(range(abs(l1 - l2), l1 + l2 + 1, 2)):
        sgn = -1 if ext else (-1)**lpp
        c = sgn * pre * b[lpp] * g[j] * _sqrt_lpp(lpp, l1, l2)
        e1 = (l1 * (l1 + 1) + l2 * (l2 + 1) - lpp * (lpp + 1)) * c
        e2 = 2 * m * mpf(x) * c
        ee += e1
        em += e2
        ee2 += e1 * (-1)**lpp
        em2 -= e2 * (-1)**lpp
    return ee, ee2, em, em2


# ------------------------------------------------------------------ round trip
def roundtrip_matrix(m, lmax, lssmax, aTE, aTM, bTE, bTM, x, ext):
    """M in the m-subspace; a*/b* map l -> coefficient"""
    lmin = max(1, m)
    ls = list(range(lmin, lmax + 1))
    lss = list(range(lmin, lssmax + 1))
    V = {(p, q): trans(p, q, m, x, ext) for p in ls for q in lss}
    n = len(ls)
    M = mp.matrix(2 * n, 2 * n)
    for i, p in enumerate(ls):
        for j, q in enumerate(ls):
            EE = EM = ME = MM = mpf(0)
            for s in lss:
                v0, _, v2, _ = V[p, s]
                _, v1, _, v3 = V[q, s]
                EE += v0 * bTE[s] * v1 + v2 * bTM[s] * v3
                EM += v0 * bTE[s] * v3 + v2 * bTM[s] * v1
                ME += v2 * bTE[s] * v1 + v0 * bTM[s] * v3
                MM += v2 * bTE[s] * v3 + v0 * bTM[s] * v1
            M[i, j] = aTE[p] * EE
            M[i, n + j] = aTE[p] * EM
            M[n + i, j] = aTM[p] * ME
            M[n + i, n + j] = aTM[p] * MM
    return M


def _sphere_coeffs(mat, r, medium, k, lmax):
    rows = mie_layers_all(mat, r, k, lmax) if isinstance(mat, list) else \
        mie_ext_all(mat, medium, k, lmax, r)
    return ({l + 1: row[0] for l, row in enumerate(rows)},
            {l + 1: row[1] for l, row in enumerate(rows)})


def coefficients(geo, k):
    """geo: dict r1 r2 L mat1 mat2 mat3 lmax lssmax; layered spheres: lists"""
    aTE, aTM = _sphere_coeffs(geo["mat1"], geo["r1"], geo["mat3"], k, geo["lmax"])
    if is_ext(geo):
        bTE, bTM = _sphere_coeffs(geo["mat2"], geo["r2"], geo["mat3"], k, geo["lssmax"])
    else:
        rows = mie_int_all(geo["mat3"], geo["mat2"], k, geo["lssmax"], geo["r2"])
        bTE = {l + 1: row[0] for l, row in enumerate(rows)}
        bTM = {l + 1: row[1] for l, row in enumerate(rows)}
    return aTE, aTM, bTE, bTM


def _outer(r):
    return r[-1] if isinstance(r, list) else r


def is_ext(geo):
    return geo["L"] > _outer(geo["r1"]) + _outer(geo["r2"])


def matrices(geo, k, ms=None):
    aTE, aTM, bTE, bTM = coefficients(geo, k)
    x = mpf(k) * mpf(geo["L"]) * index(geo["mat3"], k)
    ms = range(0, geo["lmax"] + 1) if ms is None else ms
    return {m: roundtrip_matrix(m, geo["lmax"], geo["lssmax"], aTE, aTM, bTE, bTM, x, is_ext(geo))
            for m in ms}


def lndet(M):
    n = M.rows
    A = mp.eye(n) - M
    return mp.log(abs(mp.det(A)))


def lndet_m(geo, k, ms=None):
    """{m: ln det(1-M_m)}"""
    return {m: lndet(M) for m, M in matrices(geo, k, ms).items()}


def lndet_sum(parts):
    return sum((1 if m == 0 else 2) * v for m, v in parts.items())

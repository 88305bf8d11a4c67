"""Reference model of the plate-plate interaction, independent of /repo.

The integral over the lateral wavenumber is done with the trapezoidal rule in its
logarithm, which converges exponentially for these integrands; no adaptive quadrature."""
import math
import numpy as np

OM = 2.998e8 / 1e-6
S = 0.06                       # step of the logarithmic grids


def eps(mat, k):
    kind, e, b = mat
    out = np.ones(np.shape(k))
    for wP, wR, g in e:
        wP, wR, g = wP / OM, wR / OM, g / OM
        if kind == "smith":
            out = out + wP**2 / (k**2 + g * k) * (1 - 0.49 * g / (k + g))
        elif wP:
            out = out + wP**2 / (wR**2 + k**2 + g * k)
    return out


def mu(mat, k):
    b = mat[2]
    return np.ones(np.shape(k)) if not len(b) else 1 + (b[0] - 1) / (1 + k / (b[1] / OM))


def fresnel(plate, medium, q, k):
    """(TE, TM) at lateral wavenumber q"""
    if plate == "PEC":
        return -np.ones(np.broadcast(q, k).shape), np.ones(np.broadcast(q, k).shape)
    eP, eM, mP, mM = eps(plate, k), eps(medium, k), mu(plate, k), mu(medium, k)
    kP, kM = np.sqrt(q**2 + eP * mP * k**2), np.sqrt(q**2 + eM * mM * k**2)
    return (mP * kM - mM * kP) / (mP * kM + mM * kP), (eP * kM - eM * kP) / (eP * kM + eM * kP)


def trips(p1, p2, medium, q, k, L):
    """decay constant and the (TE, TM) round trip r1 r2 exp(-2 kappa L) at one wavenumber pair"""
    kap = math.sqrt(q**2 + float(eps(medium, np.array(k)) * mu(medium, np.array(k))) * k**2)
    a, b = fresnel(p1, medium, np.array(q), np.array(k)), fresnel(p2, medium, np.array(q), np.array(k))
    return kap, [float(a[i] * b[i]) * math.exp(-2 * kap * L) for i in (0, 1)]


def _grid(L, medium, k):
    q = np.exp(np.arange(math.log(1e-9 / L), math.log(120.0 / L), S))
    kap = np.sqrt(q**2 + eps(medium, k) * mu(medium, k) * k**2)
    return q, kap


def term(p1, p2, medium, k, L):
    """(TE, TM) free energy integrand at wavenumber k > 0"""
    q, kap = _grid(L, medium, np.array(k))
    a, b = fresnel(p1, medium, q, np.array(k)), fresnel(p2, medium, q, np.array(k))
    ex = np.exp(-2 * kap * L)
    return tuple(float((q * q * np.log1p(-a[i] * b[i] * ex)).sum() * S / (2 * math.pi)) for i in (0, 1))


def pterm(p1, p2, medium, k, L):
    q, kap = _grid(L, medium, np.array(k))
    a, b = fresnel(p1, medium, q, np.array(k)), fresnel(p2, medium, q, np.array(k))
    out = []
    for i in (0, 1):
        e = a[i] * b[i] * np.exp(-2 * kap * L)
        out.append(float((q * q * -2 * kap * e / (1 - e)).sum() * S / (2 * math.pi)))
    return tuple(out)


ZERO = 1e-13


def _sum(fn, p1, p2, medium, T, L, shield):
    tot = 0.0 if shield else 0.5 * sum(fn(p1, p2, medium, ZERO, L))
    n = 1
    while True:
        k = n * T
        t = sum(fn(p1, p2, medium, k, L))
        tot += t
        if 2 * k * L > 45:
            return T * tot
        n += 1


def free_energy(p1, p2, medium, T, L, shield=False):
    if T == math.inf:
        return 0.0 if shield else 0.5 * sum(term(p1, p2, medium, ZERO, L))
    if T == 0:
        ks = np.exp(np.arange(math.log(1e-9 / L), math.log(120.0 / L), S))
        return float(sum(k * sum(term(p1, p2, medium, k, L)) for k in ks) * S)
    return _sum(term, p1, p2, medium, T, L, shield)


def pressure(p1, p2, medium, T, L, shield=False):
    return _sum(pterm, p1, p2, medium, T, L, shield)

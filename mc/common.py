"""Alphabets and small helpers shared by the property modules."""
import math
import numpy as np
from . import ref
import materials as M

# name -> (kind, oscillators, magnetic response); plain data, model and
# implementation both build their material from it
MATS = {
    "vac": ("lorentz", (), ()),
    "ps": ("lorentz", [(1.108e14, 5.54e14, 0), (2.106e16, 1.35e16, 0)], ()),
    "eth": ("lorentz", [(3.2225e15, 6.6e14, 1e12), (1.0523e16, 1.14e16, 1e12)], ()),
    "const4": ("lorentz", [(math.sqrt(3.0) * 1e22, 1e22, 0)], ()),
    "const9": ("lorentz", [(math.sqrt(8.0) * 1e22, 1e22, 0)], ()),
    "drude": ("lorentz", [(1.37e16, 0, 5.77e13)], ()),
    "drude_ps": ("lorentz", [(1.37e16, 0, 5.77e13), (2.106e16, 1.35e16, 1e13)], ()),
    "plasma": ("lorentz", [(1.37e16, 0, 0)], ()),
    "plasma01": ("lorentz", [(1.37e15, 0, 0)], ()),
    "plasma2": ("lorentz", [(1.0e15, 0, 0), (7e14, 0, 0), (1e15, 5e14, 0)], ()),
    "plasmadrude": ("lorentz", [(1.0e15, 0, 0), (2e15, 0, 5e13)], ()),
    "drudemag": ("lorentz", [(1.37e16, 0, 5.77e13)], (4, 1e9)),
    "plasmamag": ("lorentz", [(1.2e15, 0, 0)], (4, 3e14)),
    "mag": ("lorentz", [(1.0e15, 1e15, 1e13)], (3, 3e14)),
    "magvac": ("lorentz", (), (2.5, 6e14)),
    "dia": ("lorentz", [(1.0e15, 1e15, 0)], (0.5, 3e14)),
    "smith": ("smith", [(1.98e16, 0, 1.647e15)], ()),
    "pec": None,
}


def mat(name):
    """a new instance of the implementation's material"""
    if name == "pec":
        return M.PerfectConductor
    kind, e, b = MATS[name]
    e = list(e) if isinstance(e, list) else e
    if kind == "smith":
        return M.LorentzSmithMaterial(e, b)
    return M.LorentzMaterial(e, b)


def rmat(name):
    """the same material for the reference model"""
    return ref.PEC if name == "pec" else MATS[name]


def index(name, k):
    return float(ref.index(MATS[name], k))


def bessel_tol(x):
    """accuracy of ln i_l that double precision allows around the cancellation
       in i_1 = cosh/x - sinh/x^2 just above the series regime"""
    return max(1e-10, 4e-15 / x**3) if x >= 1e-3 else 1e-10


def f(x):
    return float(x)


def geo(r1, r2, L, m1, m2, m3, lmax, lssmax):
    return {"r1": r1, "r2": r2, "L": L, "mat1": m1, "mat2": m2, "mat3": m3,
            "lmax": lmax, "lssmax": lssmax}


def rgeo(g):
    """reference geometry of a case geometry (material names)"""
    out = dict(g)
    for k in ("mat1", "mat2"):
        out[k] = [rmat(n) for n in g[k]] if isinstance(g[k], list) else rmat(g[k])
    out["mat3"] = rmat(g["mat3"])
    return out


def build(g, pool=None, **kw):
    """SphereSphere of the implementation; pool shares material instances"""
    import geometry
    pool = {} if pool is None else pool

    def get(n):
        if n not in pool:
            pool[n] = mat(n)
        return pool[n]
    m1 = [get(n) for n in g["mat1"]] if isinstance(g["mat1"], list) else get(g["mat1"])
    m2 = [get(n) for n in g["mat2"]] if isinstance(g["mat2"], list) else get(g["mat2"])
    r1 = list(g["r1"]) if isinstance(g["r1"], list) else g["r1"]
    r2 = list(g["r2"]) if isinstance(g["r2"], list) else g["r2"]
    args = dict(lmax=g["lmax"], lssmax=g["lssmax"], precision=g.get("precision", 1e-14))
    args.update(kw)
    return geometry.SphereSphere(r1, r2, g["L"], m1, m2, get(g["mat3"]), **args)


def rav(x):
    return np.asarray(x, dtype=float).ravel()

"""Job files compute what they describe."""
import itertools
import os
import re
import numpy as np
import geometry
import materials
import thermodynamics
from .. import jobs

ID = "C18"
TIMEOUT = 200
RULE = ("one case per job description: worker.py is run on a job file written from it, in a scratch directory; data and header are "
        "compared with the library called directly with the described parameters; non-trivial: layered, automatic or overridden entries")
BOUNDS = {"quick": "5 sphere arrangements x lmax, lssmax (not below lmax) integer/automatic x l_offset absent/0/2 x evaluation absent/lndet/trace x zeroth "
                   "term analytic/numerical x distance argument absent/present (720 jobs), and arrangements x 6 quantities x number of "
                   "terms integer/automatic x evaluation x zeroth term (240 jobs); spelling variants of the entries (14 jobs)",
          "thorough": "full product of all entries (8640 jobs)"}
ASSUMPTIONS = ["the library called directly is the oracle; its own correctness is C01 to C12"]
KIND = {
    "solid": ("1.0", "1.2", "3.1", "materials.Gold", "materials.Polystyrene", "materials.Vacuum", "3.4"),
    "inside": ("0.5", "2", "0.7", "materials.Gold_plasma", "materials.Gold", "materials.Ethanol", "0.6"),
    "first layered": ("0.6,1.0", "1.2", "3.1", "materials.Gold,materials.Polystyrene,materials.Vacuum", "materials.Gold",
                      "materials.Vacuum", "3.4"),
    "second layered": ("1.0", "0.5,1.2", "3.1", "materials.PerfectConductor", "materials.Polystyrene, materials.Gold, materials.Ethanol",
                       "materials.Ethanol", "3.4"),
    "both layered": ("0.6,1.0", "0.5,0.7,1.2", "3.1", "materials.Gold,materials.Ethanol,materials.Vacuum",
                     "materials.Polystyrene,materials.Gold,materials.Ethanol,materials.Vacuum", "materials.Vacuum", "3.4"),
}
QUANT = ["get_f_matsubaras(0)", "free_energy()", "entropy()", "get_f_matsubaras(1)", "e0(0.5,0.6)", "F_alle(np.array([0.7, 0.2]))"]


def job(**kw):
    d = dict(kind="solid", lmax="2", lssmax="9", l_offset=None, evaluation=None, analytic="True", nmax="2", quantity=QUANT[0], arg=False,
             Tmin="0.5", Tmax="1.5", precision="1e-3")
    d.update(kw)
    d["id"] = " ".join("%s=%s" % kv for kv in sorted(kw.items()))
    return d


def cases(tier):
    out = []
    th = tier == "thorough"
    for kind, lm, ls, off, ev, an, arg, q, nm in itertools.product(
            KIND, ("2", "automatic"), ("9", "automatic"), (None, "0", "2"), (None, "lndet", "trace"), ("True", "False"), (False, True),
            QUANT if th else QUANT[:1], ("2", "automatic") if th else ("2",)):
        out.append(job(kind=kind, lmax=lm, lssmax=ls, l_offset=off, evaluation=ev, analytic=an, arg=arg, quantity=q, nmax=nm))
    if not th:
        for kind, q, nm, an, ev in itertools.product(KIND, QUANT, ("2", "automatic"), ("True", "False"), ("lndet", "trace")):
            out.append(job(lssmax="3", kind=kind, quantity=q, nmax=nm, analytic=an, evaluation=ev, Tmin="0.9", Tmax="3.6"))
    for kw in ({"analytic": "no"}, {"analytic": "yes"}, {"analytic": "0"}, {"analytic": "1"}, {"analytic": "off"}, {"analytic": "on"},
               {"precision": "1e-5", "lmax": "automatic"}, {"precision": "0.05", "lmax": "automatic"}, {"Tmin": "0.25"}, {"Tmax": "0.5"},
               {"nmax": "1"}, {"nmax": "7", "quantity": "free_energy()"}, {"lmax": "1", "lssmax": "1"}, {"lmax": "3", "lssmax": "7"}):
        for kind in ("solid", "inside"):
            out.append(job(kind=kind, spelled=True, **kw))
    seen, uniq = set(), []
    for c in out:
        if c["id"] not in seen:
            seen.add(c["id"])
            uniq.append(c)
    return uniq


def radius(s):
    v = [float(x) for x in s.split(",")]
    return v if len(v) > 1 else v[0]


def mats(s):
    v = [getattr(materials, x.strip().split(".")[1]) for x in s.split(",")]
    return v if len(v) > 1 else v[0]


def number(s):
    return s if s == "automatic" else int(s)


def direct(c):
    ra, rb, d, ma, mb, mm, d2 = KIND[c["kind"]]
    G = geometry.SphereSphere(radius(ra), radius(rb), float(d2 if c["arg"] else d), mats(ma), mats(mb), mats(mm), lmax=number(c["lmax"]),
                              l_offset=int(c["l_offset"] or 0), lssmax=number(c["lssmax"]), precision=float(c["precision"]),
                              evaluation=c["evaluation"] or "lndet")
    an = c["analytic"] in ("True", "yes", "1", "on")
    f = thermodynamics.finiteT(float(c["Tmin"]), number(c["nmax"]), float(c["Tmax"]), G, analytic_n0=an)
    q, par = c["quantity"].split("(", 1)
    if q == "F_alle":
        r = f.F_alle(np.array([0.7, 0.2]))
    else:
        r = getattr(f, q)(*[float(x) if "." in x else int(x) for x in par.rstrip(")").split(",") if x])
    return np.asarray(r, dtype=float), G, f


def run(c, ctx):
    ra, rb, d, ma, mb, mm, d2 = KIND[c["kind"]]
    conf = jobs.text({"ra": ra, "rb": rb, "d": d, "lmax": c["lmax"], "l_offset": c["l_offset"], "lssmax": c["lssmax"],
                      "evaluation": c["evaluation"], "analytic_n0": c["analytic"], "precision": c["precision"]},
                     {"mata": ma, "matb": mb, "matmd": mm},
                     {"Tmin": c["Tmin"], "Tmax": c["Tmax"], "nmax": c["nmax"], "quantity": c["quantity"], "out_file": "ignored.dat"})
    want, G, f = direct(c)
    cwd = jobs.scratch()
    try:
        with open(os.path.join(cwd, "job.config"), "w") as fh:
            fh.write(conf)
        ctx.op()
        st = jobs.run(cwd, ["job.config", "result.dat"] + ([d2] if c["arg"] else []))
        if not ctx.check(st == 0, "runs", "worker.py: %s" % st):
            return
        path = os.path.join(cwd, "result.dat")
        if not ctx.check(os.path.exists(path), "file", "no result file; present: %s" % sorted(jobs.files(cwd))):
            return
        with open(path) as fh:
            lines = fh.read().splitlines()
    finally:
        jobs.drop(cwd)
    head = "\n".join(l for l in lines if l.startswith("#"))
    data = [[float(x) for x in l.split(",")] for l in lines if l.strip() and not l.startswith("#")]
    got = np.array(data)
    got = got[:, 0] if got.ndim == 2 and got.shape[1] == 1 else got
    ctx.close(got, want, "data", 1e-10, 1e-15, "data of the result file")
    for name, val in (("lmax", G.lmax), ("lssmax", G.lssmax), ("nmax", f.nmax), ("l_offset", int(c["l_offset"] or 0))):
        m = re.search(r"(?<![a-z_])%s *= *([-0-9]+)" % name, head)
        ctx.check(m is not None and int(m.group(1)) == val, "header " + name,
                  "header says %s = %s, used was %s" % (name, m and m.group(1), val))
    for name, val in (("d", float(d2 if c["arg"] else d)), ("deltaT", float(c["Tmin"])), ("Tmax", float(c["Tmax"]))):
        m = re.search(r"(?<![a-zA-Z_])%s *= *([-+0-9.e]+)" % name, head)
        ctx.check(m is not None and abs(float(m.group(1)) - val) < 1e-4, "header " + name,
                  "header says %s = %s, used was %s" % (name, m and m.group(1), val))
    flat = re.sub(r"\s", "", head)
    for key, val in (("radius a", str(radius(ra))), ("radius b", str(radius(rb))), ("material a", ma), ("material b", mb), ("medium", mm),
                     ("quantity", c["quantity"]), ("evaluation", c["evaluation"] or "lndet")):
        ctx.check(re.sub(r"\s", "", val) in flat, "header " + key, "header does not mention %s %s" % (key, val))
    m = re.search(r"precision: *([-+0-9.e]+)", head)
    ctx.check(m is not None and float(m.group(1)) == float(c["precision"]), "header precision", "header precision %s" % (m and m.group(1)))
    ctx.state(c["kind"], G.lmax, G.lssmax, f.nmax, c["evaluation"])

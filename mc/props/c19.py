"""Running jobs never destroys earlier results."""
import itertools
import os
import numpy as np
import geometry
import materials
import thermodynamics
from .. import jobs, sched

ID = "C19"
TIMEOUT = 200
RULE = ("one case per set of files present at the start and first run: all continuations; after every run all files below the "
        "working directory are compared with those before; write faults at every byte of the result; non-trivial: at least "
        "one file of the output name or its alternatives exists")
BOUNDS = {"quick": "8 initial sets of files x all sequences of 3 runs over 9 runs (3 output names x successful / other successful / failing "
                   "job) = 5832 histories; every byte position of the result as point of a failing write and of a killed process, "
                   "each followed by another run; 12 unusual output names; all interleavings of the file operations of two jobs running at the same time "
                   "from 5 sets of names and files, also with one of them killed at any of these operations",
          "thorough": "all sequences of 4 runs over 12 runs from 16 initial sets; all interleavings of three jobs"}
ASSUMPTIONS = ["overlapping jobs interleave at file operations (tests for existence, opening, flushing and closing, renaming ..)", "write faults are produced with a limit on the file size, by signal and as error"]
NAMES = ["out", "out1", "res.dat"]
EXTRA = {"out": b"old result\n", "out1": b"1,2,3\n", "out11": b"", "res.dat": b"# precious\n4\n"}


def conf(job):
    g = {"ra": "1", "rb": "1", "d": "9" if job == "ok" else "8.5", "lmax": "1", "lssmax": "1", "l_offset": "0", "evaluation": "lndet",
         "analytic_n0": "True", "precision": "1e-3"}
    m = {"mata": "materials.Gold", "matb": "materials.PerfectConductor", "matmd": "materials.Vacuum"}
    t = {"Tmin": "0.5", "Tmax": "0.5", "nmax": "1", "quantity": "get_f_matsubaras(0)"}
    if job == "bad material":
        m["mata"] = "materials.Unobtainium"
    elif job == "bad quantity":
        t["quantity"] = "no_such_quantity()"
    elif job == "no section":
        return jobs.text(g, m, {})
    return jobs.text(g, m, t)


JOBS = ["ok", "other", "bad material", "bad quantity", "no section"]
_WANT = {}


def expected(job):
    if job not in _WANT:
        G = geometry.SphereSphere(1.0, 1.0, 9.0 if job == "ok" else 8.5, materials.Gold, materials.PerfectConductor, materials.Vacuum,
                                  lmax=1, l_offset=0, lssmax=1, precision=1e-3)
        _WANT[job] = thermodynamics.finiteT(0.5, 1, 0.5, G).get_f_matsubaras(0)
    return _WANT[job]


def complete(data, job):
    """None, or what is wrong with the result file"""
    try:
        lines = data.decode().splitlines()
        got = np.array([float(l) for l in lines if l.strip() and not l.startswith("#")])
    except ValueError as e:
        return "unreadable: %s" % e
    if not any(l.startswith("#") for l in lines):
        return "header missing"
    want = expected(job)
    if got.shape != want.shape or not np.all(np.abs(got - want) <= 1e-9 * np.abs(want)):
        return "data %s instead of %s" % (got.tolist(), want.tolist())
    return None


def cases(tier):
    th = tier == "thorough"
    runs = [[n, j] for n in NAMES for j in (["ok", "other", "bad material"] + (["bad quantity"] if th else []))]
    base = ["out", "out1", "out11"] + (["res.dat"] if th else [])
    out = []
    for r in range(len(base) + 1):
        for init in itertools.combinations(base, r):
            for first in runs:
                out.append({"id": "start %s, first %s %s" % ("+".join(init) or "empty", first[0], first[1]), "part": "history",
                            "init": list(init), "first": first, "runs": runs, "depth": 4 if th else 3})
    size = 700
    for kill in (False, True):
        for init in ([], ["out"], ["out", "out1"]):
            for lo in range(0, size, 20):
                out.append({"id": "torn %s %s %d.." % ("kill" if kill else "error", "+".join(init), lo), "part": "torn", "kill": kill,
                            "init": init, "lo": lo, "hi": lo + 20, "step": 1 if init == ["out"] or th else 5})
    # runs that overlap in time: every interleaving of their file operations
    for names in (["out", "out"], ["out", "out1"], ["out1", "out"]):
        for init in ([], ["out"], ["out", "out1"]):
            if names[0] != names[1] and init != ["out"] and not th:
                continue
            for pre in itertools.product((0, 1), repeat=4):
                out.append({"id": "overlap %s from %s, choices %s" % ("+".join(names), "+".join(init) or "empty", pre), "part": "overlap",
                            "names": names, "init": init, "pre": list(pre), "kill": False})
    for init in ([], ["out"]):
        for pre in itertools.product((0, 1, 2, 3), repeat=2):
            out.append({"id": "overlap with kill from %s, choices %s" % ("+".join(init) or "empty", pre), "part": "overlap",
                        "names": ["out", "out"], "init": init, "pre": list(pre), "kill": True})
    if th:
        for pre in itertools.product((0, 1, 2), repeat=5):
            out.append({"id": "overlap of three, choices %s" % (pre,), "part": "overlap", "names": ["out"] * 3, "init": [], "pre": list(pre), "kill": False})
    for name in ("job.ok", "sub/out", "./out", "missing/out", "out put", "out.", ".out", "sub", "1", "11", "sub/../out", "ABS"):
        out.append({"id": "name %s" % name, "part": "name", "name": name})
    for j in JOBS:
        out.append({"id": "job %s" % j, "part": "job", "job": j})
    return out


def start(init):
    cwd = jobs.scratch()
    for j in JOBS:
        with open(os.path.join(cwd, "job." + j.replace(" ", "_")), "w") as f:
            f.write(conf(j))
    for n in init:
        with open(os.path.join(cwd, n), "wb") as f:
            f.write(EXTRA[n])
    return cwd


def one(cwd, name, job, ctx, hist, fsize=None, kill=False):
    """one run and the comparison of the directory before and after"""
    before = jobs.files(cwd)
    ctx.op()
    st = jobs.run(cwd, ["job." + job.replace(" ", "_"), name], fsize, kill)
    after = jobs.files(cwd)
    lost = [n for n in before if n not in after or after[n] != before[n]]
    if not ctx.check(not lost, "destroyed", "%s: %s changed or removed" % (hist, lost)):
        return None
    new = [n for n in after if n not in before]
    if st == 0:
        if not ctx.check(len(new) == 1, "one file", "%s: a successful run added %s" % (hist, new)):
            return None
        why = complete(after[new[0]], job)
        if not ctx.check(why is None, "complete", "%s: %s: %s" % (hist, new[0], why)):
            return None
    if job in ("ok", "other") and fsize is None and name != "missing/out":
        if not ctx.check(st == 0, "success", "%s: the run %s" % (hist, st)):
            return None
    ctx.outcome(str(st), sorted(after), len(new))
    ctx.state(sorted((n, hash(v)) for n, v in after.items()))
    return st


def overlap(case, ctx):
    names, pre = case["names"], case["pre"]
    js = ["ok", "other", "ok"][:len(names)]
    argvs = [["job." + j, n] for j, n in zip(js, names)]
    skip = ["job." + j.replace(" ", "_") for j in JOBS]
    todo = list(pre)
    while todo is not None:
        cwd = start(case["init"])
        try:
            before = jobs.files(cwd)
            got = sched.execute(cwd, argvs, todo, case["kill"], skip)
            if got is None:             # fewer choices than the prefix names
                return
            made, width, trace, st = got
            ctx.op(len(made))
            after = jobs.files(cwd)
            hist = "start %s, jobs %s to %s, schedule [%s]" % (case["init"], js, names, "; ".join(trace))
            lost = [n for n in before if n not in after or after[n] != before[n]]
            if not ctx.check(not lost, "destroyed", "%s: %s changed or removed" % (hist, lost)):
                return
            new = [n for n in after if n not in before]
            good = [j for j, s in zip(js, st) if s == 0]
            if not ctx.check("killed" in st or len(good) == len(js), "success", "%s: ends with %s" % (hist, st)):
                return
            if not ctx.check(len(good) <= len(new) <= len(js), "one file", "%s: ends with %s, new files %s" % (hist, st, new)):
                return
            for j in set(good):
                n = sum(complete(after[f], j) is None for f in new)
                if not ctx.check(n >= good.count(j), "complete", "%s: %d complete results of job %s among %s" % (hist, n, j, {f: after[f] for f in new})):
                    return
            ctx.state(sorted((n, hash(v)) for n, v in after.items()))
            ctx.outcome(tuple(st), sorted(after))
        finally:
            jobs.drop(cwd)
        todo = sched.following(made, width)
        if todo is None or todo[:len(pre)] != pre:
            return


def run(case, ctx):
    p = case["part"]
    if p == "history":
        for tail in itertools.product(case["runs"], repeat=case["depth"] - 1):
            seq = [case["first"]] + list(tail)
            cwd = start(case["init"])
            try:
                for i, (name, job) in enumerate(seq):
                    if one(cwd, name, job, ctx, "start %s, runs %s" % (case["init"], seq[:i + 1])) is None:
                        return
            finally:
                jobs.drop(cwd)
    elif p == "torn":
        for n in range(case["lo"], case["hi"], case["step"]):
            cwd = start(case["init"])
            try:
                hist = "start %s, write limited to %d bytes (%s)" % (case["init"], n, "kill" if case["kill"] else "error")
                if one(cwd, "out", "ok", ctx, hist, n, case["kill"]) is None:
                    return
                if one(cwd, "out", "other", ctx, hist + ", then another run") is None:
                    return
            finally:
                jobs.drop(cwd)
    elif p == "overlap":
        overlap(case, ctx)
    elif p == "name":
        cwd = start(["out"])
        try:
            os.mkdir(os.path.join(cwd, "sub"))
            name = os.path.join(cwd, "absolute.dat") if case["name"] == "ABS" else case["name"]
            for i in range(3):
                if one(cwd, name, ("ok", "other")[i % 2], ctx, "run %d to %s" % (i + 1, name)) is None:
                    return
        finally:
            jobs.drop(cwd)
    else:
        cwd = start(["out"])
        try:
            for n in ("out", "new"):
                for i in range(2):
                    if one(cwd, n, case["job"], ctx, "job %s to %s" % (case["job"], n)) is None:
                        return
        finally:
            jobs.drop(cwd)

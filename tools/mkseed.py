#!/usr/bin/env python3
"""mkseed.py SPEC.py : confirm planted bugs in a scratch copy and file them below /verif/seeded

SPEC.py defines BUGS = [dict(id=, property=, needs=, what=, edits=[(file, old, new), ..], demo=)].
Each change is applied to a copy of /repo below /tmp; it is kept only if the stable
tests still pass with it and its demonstration passes without and fails with it."""
import json
import os
import shutil
import subprocess
import sys
import runpy

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COPY = "/tmp/seedcopy"
PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ENVV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
            OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", NUMEXPR_NUM_THREADS="1",
            NPY_DISABLE_CPU_FEATURES="AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL",
            OPENBLAS_CORETYPE="Haswell")
DEMO_SH = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export MPLCONFIGDIR=$(mktemp -d)
trap 'rm -rf "$MPLCONFIGDIR"' EXIT
PYTHONWARNINGS=ignore /opt/venv/bin/python -B "$here/demo.py"
"""
DEMO_HEAD = """import os
import sys
sys.path.insert(0, os.path.join(os.getcwd(), "CasimirRio"))
import numpy as np
np.seterr(all="ignore")


def expect(value, reference, tol, what=""):
    value, reference = np.asarray(value, float), np.asarray(reference, float)
    err = np.max(np.abs(value-reference)/np.maximum(np.abs(reference), 1e-300))
    if not (value.shape == reference.shape and err <= tol):
        print("FAILED", what, value, reference, err)
        sys.exit(1)


"""


def sh(cmd, cwd=None):
    return subprocess.run(cmd, cwd=cwd, env=ENVV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)


def build(repo):
    src = os.path.join(repo, "CasimirRio")
    inc = subprocess.check_output([PY, "-c", "import numpy; print(numpy.get_include())"]).decode().strip()
    for m in ("cython_gaunt", "matrix_balancing"):
        e = dict(ENVV, CFLAGS="-I"+inc)
        p = subprocess.run([PY, m+"_setup.py", "build_ext", "--inplace", "--force"], cwd=src, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            return p.stdout.decode()
    return None


def tests(repo):
    x = "/tmp/seedtests.xml"
    src = os.path.join(repo, "CasimirRio")
    sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300",
        "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitxml="+x, "tests"], cwd=src)
    o = "/tmp/seedtests.json"
    subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", o, "junit:"+x], stdout=subprocess.DEVNULL)
    r = json.load(open(o))
    return STABLE - set(r["passed"] if "passed" in r else r["pass"])


def main():
    only = sys.argv[2:]
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    for b in bugs:
        if only and b["id"] not in only:
            continue
        shutil.rmtree(COPY, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", COPY], check=True)
        d = "/tmp/seedout/"+b["id"]
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d+"/demo.sh", "w").write(DEMO_SH)
        os.chmod(d+"/demo.sh", 0o755)
        open(d+"/demo.py", "w").write(DEMO_HEAD+b["demo"].strip()+"\nprint(\"ok\")\n")
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]},
                  open(d+"/meta.json", "w"), indent=1)
        p = sh(["bash", d+"/demo.sh"], cwd=COPY)
        if p.returncode:
            print(b["id"], "REJECTED: demo fails on the unchanged tree\n", p.stdout.decode()[-1500:])
            continue
        bad = False
        pyx = False
        for f, old, new in b["edits"]:
            fn = os.path.join(COPY, "CasimirRio", f)
            s = open(fn, encoding="utf-8", newline="").read()
            if s.count(old) != 1:
                print(b["id"], "REJECTED: %s occurs %d times in %s" % (old, s.count(old), f))
                bad = True
                break
            open(fn, "w", encoding="utf-8", newline="").write(s.replace(old, new))
            pyx = pyx or f.endswith(".pyx")
        if bad:
            continue
        diff = subprocess.check_output(["git", "diff", "--", "CasimirRio"], cwd=COPY)
        open(d+"/patch.diff", "wb").write(diff)
        if pyx:
            err = build(COPY)
            if err:
                print(b["id"], "REJECTED: build\n", err[-800:])
                continue
        broken = tests(COPY)
        if broken:
            print(b["id"], "REJECTED: tests", sorted(broken))
            continue
        p = sh(["bash", d+"/demo.sh"], cwd=COPY)
        if not p.returncode:
            print(b["id"], "REJECTED: demo passes with the change")
            continue
        dest = os.path.join(VERIF, "seeded", b["id"])
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(d, dest)
        print(b["id"], "kept:", (p.stdout.decode().strip().splitlines() or ["-"])[-1][:150])
    shutil.rmtree(COPY, ignore_errors=True)
    shutil.rmtree("/tmp/seedout", ignore_errors=True)


main()

"""Environment of every check: interpreter, thread settings, fresh build of /repo.

The two Cython modules are compiled from /repo's current working tree into
/verif/.build/<hash of their sources> (ignored by git); Python modules are
imported straight from /repo.  Nothing is ever written below /repo."""
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "CasimirRio")
PY = "/opt/venv/bin/python"
ENV = {
    "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg",
    "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "NUMEXPR_NUM_THREADS": "1",
    "NPY_DISABLE_CPU_FEATURES": "AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL",
    "OPENBLAS_CORETYPE": "Haswell", "PYTHONWARNINGS": "ignore",
    "MPLCONFIGDIR": os.path.join(VERIF, ".build", "mpl"),
}
EXT = ("cython_gaunt", "matrix_balancing")


def reexec():
    """restart under the project's interpreter with the thread settings above"""
    if os.environ.get("VERIF_REEXEC") == "1":
        return
    env = dict(os.environ)
    env.update(ENV)
    env["VERIF_REEXEC"] = "1"
    os.makedirs(ENV["MPLCONFIGDIR"], exist_ok=True)
    os.execve(PY, [PY] + sys.argv, env)


def build():
    """compile the Cython modules of the current tree; returns the directory"""
    h = hashlib.sha256()
    files = []
    for m in EXT:
        files += [m + ".pyx", m + "_setup.py"]
    files += sorted(f for f in os.listdir(SRC) if f.endswith(".pxd"))
    for f in files:
        h.update(f.encode())
        with open(os.path.join(SRC, f), "rb") as fh:
            h.update(fh.read())
    h.update(sys.version.encode())
    out = os.path.join(VERIF, ".build", h.hexdigest()[:20])
    if os.path.isdir(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="tmp", dir=os.path.dirname(out))
    try:
        for f in files:
            shutil.copy(os.path.join(SRC, f), tmp)
        import numpy
        env = dict(os.environ)
        env["CFLAGS"] = "-I" + numpy.get_include()
        procs = [subprocess.Popen([PY, m + "_setup.py", "build_ext", "--inplace", "--force",
                                   "--build-temp", os.path.join(tmp, "t_" + m)], cwd=tmp, env=env,
                                  stdout=subprocess.PIPE, stderr=subprocess.STDOUT) for m in EXT]
        for m, p in zip(EXT, procs):
            log = p.communicate()[0]
            if p.returncode:
                sys.stderr.write(log.decode(errors="replace"))
                raise SystemExit("build of %s failed" % m)
        os.makedirs(os.path.join(tmp, "lib"))
        n = 0
        for f in os.listdir(tmp):
            if f.endswith(".so"):
                shutil.move(os.path.join(tmp, f), os.path.join(tmp, "lib", f))
                n += 1
        if n != len(EXT):
            raise SystemExit("Cython build incomplete")
        try:
            os.rename(os.path.join(tmp, "lib"), out)
        except OSError:
            if not os.path.isdir(out):
                raise
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def activate():
    sys.dont_write_bytecode = True
    import warnings
    warnings.filterwarnings("ignore")
    out = build()
    sys.path[:0] = [out, SRC]
    import numpy as np
    np.seterr(all="ignore")
    return out

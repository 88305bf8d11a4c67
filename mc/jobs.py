"""Runs /repo's worker.py in a forked child, inside a scratch directory."""
import os
import resource
import runpy
import shutil
import signal
import sys
import tempfile
import warnings
from . import cover, env


def scratch():
    return tempfile.mkdtemp(prefix="vjob-")


def drop(path):
    assert os.path.basename(path).startswith("vjob-")
    shutil.rmtree(path, ignore_errors=True)


def text(geometry, materials, thermo):
    out = []
    for name, sec in (("geometry", geometry), ("materials", materials), ("thermodynamics", thermo)):
        out.append("[%s]" % name)
        out += ["%s: %s" % (k, v) for k, v in sec.items() if v is not None]
        out.append("")
    return "\n".join(out)


def run(cwd, argv, fsize=None, kill=False, fault=None):
    """exit status of worker.py with the given arguments: 0, or a text describing the failure.
       fsize limits the size of every file written (torn writes): the write fails, or kills.
       fault = (n, kind): the n-th evaluation of a material raises; "unreached" if there are fewer."""
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.chdir(cwd)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            warnings.simplefilter("ignore")
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if fsize is not None:
                if not kill:
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                else:
                    signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
            sys.argv = ["worker.py"] + [str(a) for a in argv]
            sys.dont_write_bytecode = True
            if fault is None:
                runpy.run_path(os.path.join(env.SRC, "worker.py"), run_name="__main__")
                code = 0
            else:
                from . import faults
                with faults.at(*fault) as st:
                    code = 0
                    try:
                        runpy.run_path(os.path.join(env.SRC, "worker.py"), run_name="__main__")
                    except BaseException as e:
                        code = 0 if isinstance(e, SystemExit) and not e.code else 1
                    if not st["hit"]:
                        code = 9
        except SystemExit as e:
            code = 0 if not e.code else 1
        except BaseException:
            code = 1
        finally:
            if fsize is None:
                cover.dump()
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return "killed by signal %d" % os.WTERMSIG(st)
    return {0: 0, 9: "unreached"}.get(os.WEXITSTATUS(st), "failed")


def files(cwd):
    """{relative path: content} of everything below cwd"""
    out = {}
    for d, _, names in os.walk(cwd):
        for n in names:
            p = os.path.join(d, n)
            with open(p, "rb") as f:
                out[os.path.relpath(p, cwd)] = f.read()
    return out

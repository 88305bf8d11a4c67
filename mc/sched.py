"""Several runs of worker.py at the same time under a controlled scheduler.

Every run is a forked process that stops before each file-system operation below
its working directory (existence test, open, end of a buffered write, rename,
...) and tells the explorer about it; exactly one process moves at a time.
explore() re-executes from the start with every possible sequence of choices,
optionally with one process killed at one of its stops, so all interleavings of
these operations are visited.
"""
import builtins
import io
import os
import runpy
import signal
import sys
import warnings
from . import env

CALLS = ["stat", "lstat", "access", "open", "rename", "replace", "link", "symlink", "remove", "unlink", "mkdir", "listdir", "scandir", "truncate"]


class Stop:
    """the child's side: announce an operation, wait for permission"""

    def __init__(self, out, inp):
        self.out, self.inp = out, inp

    def __call__(self, what):
        os_write(self.out, (what.replace("\n", " ")[:200] + "\n").encode())
        if os_read(self.inp, 1) != b"g":
            os._exit(3)


os_write, os_read = os.write, os.read


class Proxy:
    """a file opened for writing whose buffered data appear when it is flushed or closed"""

    def __init__(self, f, name, stop):
        self.__dict__.update(_f=f, _name=name, _stop=stop)

    def __getattr__(self, a):
        return getattr(self._f, a)

    def flush(self):
        self._stop("flush " + self._name)
        return self._f.flush()

    def close(self):
        if not self._f.closed:
            self._stop("close " + self._name)
        return self._f.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return iter(self._f)

    def __del__(self):
        if not self._f.closed:
            self.close()


def inside(path, cwd):
    try:
        path = os.fspath(path)
    except TypeError:
        return None
    if isinstance(path, bytes):
        path = path.decode()
    p = os.path.normpath(os.path.join(cwd, path))
    if not p.startswith(cwd + os.sep):
        return None
    return os.path.relpath(p, cwd)


def child(cwd, argv, stop, skip):
    os.chdir(cwd)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    warnings.simplefilter("ignore")
    real_open = builtins.open

    def my_open(file, mode="r", *a, **kw):
        n = inside(file, cwd)
        if n is None or n in skip:
            return real_open(file, mode, *a, **kw)
        stop("open %s %s" % (n, mode))
        f = real_open(file, mode, *a, **kw)
        return f if mode in ("r", "rb", "rt") else Proxy(f, n, stop)
    builtins.open = io.open = my_open

    def hook(name):
        fn = getattr(os, name)

        def g(path, *a, **kw):
            n = inside(path, cwd)
            if n is not None and n not in skip:
                stop("%s %s" % (name, n))
            return fn(path, *a, **kw)
        setattr(os, name, g)
    for n in CALLS:
        hook(n)

    def exists(path):                    # may be implemented in C, without os.stat
        try:
            os.stat(path)
        except (OSError, ValueError):
            return False
        return True
    os.path.exists = os.path.lexists = exists
    sys.argv = ["worker.py"] + list(argv)
    sys.dont_write_bytecode = True
    runpy.run_path(os.path.join(env.SRC, "worker.py"), run_name="__main__")


class Run:
    def __init__(self, cwd, argv, skip):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                os.close(r1)
                os.close(w2)
                child(cwd, argv, Stop(w1, r2), skip)
                code = 0
            except SystemExit as e:
                code = 0 if not e.code else 1
            except BaseException:
                code = 1
            finally:
                os._exit(code)
        os.close(w1)
        os.close(r2)
        self.inp, self.out = io.open(r1, "r", closefd=True), w2
        self.status = None
        self.at = None

    def advance(self):
        """wait for the next stop or the end"""
        line = self.inp.readline()
        if line:
            self.at = line.strip()
            return
        self.end()

    def end(self):
        self.at = None
        _, st = os.waitpid(self.pid, 0)
        self.status = "killed" if os.WIFSIGNALED(st) else os.WEXITSTATUS(st)
        self.inp.close()
        os.close(self.out)

    def go(self):
        os.write(self.out, b"g")
        self.advance()

    def kill(self):
        os.kill(self.pid, signal.SIGKILL)
        self.end()


def execute(cwd, argvs, prefix, kill, skip):
    """one execution following prefix, then always the first choice.
       None if there is no such schedule, else the choices made, the number of choices at every step, the trace and the exit states"""
    runs = [Run(cwd, a, skip) for a in argvs]
    for r in runs:
        r.advance()
    made, width, trace = [], [], []
    killed = False
    while True:
        live = [i for i, r in enumerate(runs) if r.status is None]
        if not live:
            break
        options = [(i, False) for i in live]
        if kill and not killed:
            options += [(i, True) for i in live]
        c = prefix[len(made)] if len(made) < len(prefix) else 0
        if c >= len(options):            # no such schedule
            for i in live:
                runs[i].kill()
            return None
        i, k = options[c]
        made.append(c)
        width.append(len(options))
        trace.append("%d:%s%s" % (i, "killed before " if k else "", runs[i].at))
        if k:
            killed = True
            runs[i].kill()
        else:
            runs[i].go()
        if len(made) > 400:
            for r in runs:
                if r.status is None:
                    r.kill()
            trace.append("no end")
            break
    return made, width, trace, [r.status for r in runs]


def following(made, width):
    """the next prefix in depth-first order, or None"""
    made = list(made)
    while made:
        if made[-1] + 1 < width[len(made) - 1]:
            made[-1] += 1
            return made
        made.pop()
    return None

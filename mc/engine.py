"""Exhaustive explorer.

A property module supplies
    ID, RULE, BOUNDS (tier -> text), ASSUMPTIONS, TIMEOUT (seconds per case)
    cases(tier)    -> list of JSON-able cases, simplest first; the whole bounded space
    run(case, ctx) -> executes the case on the real code and compares with the model
Every case is executed; nothing is sampled and there is no time cap.  Cases run
in forked worker processes; a case that does not come back within TIMEOUT, kills
its process or raises is a violation like any failed comparison."""
import collections
import hashlib
import importlib
import json
import multiprocessing.connection
import os
import sys
import time
import traceback

from . import cover, env


class Fail(Exception):
    """the property does not hold for this case"""


class Broken(Exception):
    """the code under test cannot even be prepared for the exploration"""


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-3:])


def from_repo(e):
    """raised by the code under test, not by this framework"""
    tb = traceback.extract_tb(e.__traceback__)
    files = [os.path.realpath(f.filename) for f in tb]
    here = [i for i, f in enumerate(files) if f.startswith(os.path.realpath(env.VERIF) + os.sep) and ".build" not in f]
    there = [i for i, f in enumerate(files) if f.startswith(os.path.realpath(env.SRC) + os.sep)]
    return isinstance(e, Broken) or bool(there and (not here or there[-1] > here[-1]))


def unusable(pid, tier, e):
    """importing or preparing failed inside the code under test: nothing this property promises holds"""
    os.makedirs(os.path.join(env.VERIF, "replays"), exist_ok=True)
    path = os.path.join(env.VERIF, "replays", "%s-prepare.json" % pid)
    msg = "%s: %s (%s)" % (type(e).__name__, e, where(e))
    with open(path, "w") as f:
        json.dump({"property": pid, "tier": tier, "case": None, "message": msg,
                   "replay": "cd /verif && ./run.sh %s" % pid}, f, indent=1)
    print("  %s/prepare: %s" % (pid, msg))
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


class Ctx:
    """collects what one case did"""

    def __init__(self, case):
        self.case = case
        self.ops = 0            # operations executed on the real code
        self.points = 0         # values compared with the model
        self.states = set()     # digests of canonical states reached
        self.outcomes = set()   # digests of observed outcomes
        self.fails = []         # (key, message)

    # -- counting
    def op(self, n=1):
        self.ops += n

    def state(self, *what):
        self.states.add(digest(what))

    def outcome(self, *what):
        self.outcomes.add(digest(what))

    # -- judging
    def fail(self, key, msg):
        self.fails.append((str(key), msg))

    def check(self, cond, key, msg):
        self.points += 1
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)
            return False
        return True

    def close(self, got, want, key, rtol=1e-9, atol=0.0, what=""):
        """elementwise |got-want| <= atol + rtol*|want|; NaN never passes"""
        import numpy as np
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
        except Exception:
            self.fail(key, "%s: result is not numeric: %r" % (what, got))
            return False
        if g.shape != w.shape:
            self.points += 1
            self.fail(key, "%s: shape %s, expected %s" % (what, g.shape, w.shape))
            return False
        self.points += max(1, g.size)
        if g.size:
            self.outcomes.add(digest(["%.6e" % v for v in g.ravel()[:8]]))
        at = np.broadcast_to(np.asarray(atol, dtype=float), w.shape)
        same = (g == w) | (np.abs(g - w) <= at + rtol * np.abs(w))
        if not same.all():
            i = int(np.argmin(same.ravel()))
            idx = np.unravel_index(i, w.shape) if w.shape else ()
            self.fail(key, "%s: got %.17g, model says %.17g (index %s, %d of %d values differ)"
                      % (what, g.ravel()[i], w.ravel()[i], tuple(int(j) for j in idx),
                         int((~same).sum()), w.size))
            return False
        return True


def digest(obj):
    return hashlib.sha1(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:16]


def execute(mod, case):
    ctx = Ctx(case)
    try:
        mod.run(case, ctx)
    except Fail as e:
        ctx.fail("fail", str(e))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-3:])
        ctx.fail("raised", "raised %s: %s (%s)" % (type(e).__name__, e, where))
    return ctx


# ------------------------------------------------------------------ worker side
def _worker(mod, cases, conn):
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        while True:
            todo = conn.recv()
            if todo is None:
                break
            for i in todo:
                conn.send(("start", i))
                c = execute(mod, cases[i])
                cover.dump()
                conn.send(("done", i, c.ops, c.points, list(c.states), list(c.outcomes), c.fails))
            conn.send(("idle",))
    except (EOFError, KeyboardInterrupt, BrokenPipeError):
        pass
    os._exit(0)


class _Proc:
    def __init__(self, mod, cases):
        self.conn, child = multiprocessing.connection.Pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            self.conn.close()
            _worker(mod, cases, child)
            os._exit(0)
        child.close()
        self.current = None
        self.since = time.time()
        self.cpu0 = 0.0
        self.todo = []

    def cpu(self):
        """processor seconds of the worker and its finished children"""
        try:
            with open("/proc/%d/stat" % self.pid) as f:
                v = f.read().rpartition(")")[2].split()
            return sum(int(t) for t in v[11:15]) / os.sysconf("SC_CLK_TCK")
        except (OSError, ValueError, IndexError):
            return float("inf")

    def stuck(self, timeout):
        """the case had its time: on a busy machine the processor time counts,
           a case that waits for something gets three times as long"""
        return self.cpu() - self.cpu0 > 0.6 * timeout or time.time() - self.since > min(3 * timeout, timeout + 300)

    def kill(self):
        try:
            os.kill(self.pid, 9)
        except ProcessLookupError:
            pass
        try:
            os.waitpid(self.pid, 0)
        except ChildProcessError:
            pass
        self.conn.close()


def explore(mod, cases, procs, max_fail):
    """run every case; returns aggregated results"""
    res = {"ops": 0, "points": 0, "states": set(), "outcomes": set(), "fails": [], "run": 0, "slowest": (0.0, 0)}
    n = len(cases)
    chunk = max(1, min(32, n // (procs * 8) or 1))
    light = [i for i in range(n) if not cases[i].get("heavy")]
    queue = collections.deque([i] for i in range(n) if cases[i].get("heavy"))      # one at a time, first
    queue.extend(light[i:i + chunk] for i in range(0, len(light), chunk))
    timeout = getattr(mod, "TIMEOUT", 60)
    known = load_known(mod.ID)
    unknown = [0]
    workers = []

    def feed(p):
        if not queue or unknown[0] >= max_fail:
            return False
        p.todo = queue.popleft()
        p.current = None
        p.since, p.cpu0 = time.time(), p.cpu()
        p.conn.send(p.todo)
        return True

    def record(i, fails):
        for key, msg in fails:
            k = full_key(cases[i], key)
            res["fails"].append((i, k, msg))
            if k not in known:
                unknown[0] += 1

    def lost(p, why):
        """process gone or stuck: the current case fails, the rest is queued again"""
        p.kill()
        workers.remove(p)
        rest = list(p.todo)
        cur = p.current if p.current is not None else (rest[0] if rest else None)
        if cur is not None:
            res["run"] += 1
            record(cur, [("lost", why)])
            rest = rest[rest.index(cur) + 1:]
        if rest:
            queue.appendleft(rest)
        q = _Proc(mod, cases)
        if feed(q):
            workers.append(q)
        else:
            q.kill()

    for _ in range(min(procs, len(queue))):
        p = _Proc(mod, cases)
        workers.append(p)
        feed(p)
    while workers:
        ready = multiprocessing.connection.wait([p.conn for p in workers], timeout=1.0)
        for p in list(workers):
            if p.conn in ready:
                try:
                    msg = p.conn.recv()
                except (EOFError, OSError):
                    lost(p, "the process running the case died")
                    continue
                if msg[0] == "start":
                    p.current, p.since, p.cpu0 = msg[1], time.time(), p.cpu()
                elif msg[0] == "done":
                    _, i, ops, pts, st, oc, fails = msg
                    res["run"] += 1
                    if time.time() - p.since > res["slowest"][0]:
                        res["slowest"] = (round(time.time() - p.since, 2), i)
                    res["ops"] += ops
                    res["points"] += pts
                    res["states"].update(st)
                    res["outcomes"].update(oc)
                    record(i, fails)
                elif msg[0] == "idle":
                    if not feed(p):
                        workers.remove(p)
                        try:
                            p.conn.send(None)
                        except OSError:
                            pass
                        p.kill()
            elif time.time() - p.since > timeout and p.stuck(timeout):
                unknown[0] += max_fail      # one such case is enough, the others may hang as well
                lost(p, "did not terminate within %d s" % timeout)
    res["complete"] = not queue
    return res


def pristine(fn, timeout=120):
    """result of fn() computed in a forked child, so that whatever fn leaves behind in
       module-level state cannot reach the caller; call it from prepare() only"""
    import pickle
    import select
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            try:
                data = pickle.dumps((True, fn()))
            except Exception as e:
                data = pickle.dumps((False, "%s: %s (%s)" % (type(e).__name__, e, where(e))))
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    data, end = b"", time.time() + timeout
    while time.time() < end:
        if select.select([r], [], [], 1.0)[0]:
            b = os.read(r, 1 << 16)
            if not b:
                break
            data += b
    else:
        os.kill(pid, 9)
    os.close(r)
    os.waitpid(pid, 0)
    if not data:
        raise Broken("the process preparing the model did not come back")
    good, value = pickle.loads(data)
    if not good:
        raise Broken(value)
    return value


# ------------------------------------------------------------------ known findings
def full_key(case, key):
    base = case.get("id") if isinstance(case, dict) and "id" in case else digest(case)
    return "%s/%s" % (base, key)


def load_known(pid):
    path = os.path.join(env.VERIF, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    return {k["key"]: k["what"] for k in data.get("known", []) if k["property"] == pid}


# ------------------------------------------------------------------ entry
def main(argv):
    if argv[0] == "--setup":
        print("built", env.build())
        return 0
    pid = argv[0]
    replay = None
    if "--replay" in argv:
        replay = argv[argv.index("--replay") + 1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    env.activate()
    cover.start(env.SRC)
    try:
        mod = importlib.import_module("mc.props." + pid.lower())
        if hasattr(mod, "prepare"):
            mod.prepare(tier)
    except Exception as e:
        if from_repo(e):
            return unusable(pid, tier, e)
        raise
    if replay:
        with open(replay) as f:
            case = json.load(f)["case"]
        c = execute(mod, case)
        for k, m in c.fails:
            print("FAIL %s: %s" % (full_key(case, k), m))
        print("replayed: %d operations, %d comparisons, %d failures" % (c.ops, c.points, len(c.fails)))
        return 1 if c.fails else 0
    cases = json.loads(json.dumps(list(mod.cases(tier))))
    if os.environ.get("VERIF_SHUFFLE"):
        # development only (tools/mutate.py): a first look at a part of the cases of every kind
        import random
        random.Random(7).shuffle(cases)
        kinds, some = {}, []
        for c in cases:
            kinds.setdefault(str(c.get("part", str(c.get("id")).split()[0])), []).append(c)
        for v in kinds.values():
            some += v[:max(40, int(len(v) * float(os.environ.get("VERIF_SAMPLE", "1"))))]
        random.Random(8).shuffle(some)
        cases = some
    keys = [digest(c) for c in cases]
    assert len(set(keys)) == len(keys), "duplicate cases"
    # the same case twice must give identical observations, otherwise nothing
    # that follows is trustworthy
    procs = int(os.environ.get("VERIF_PROCS", "0")) or os.cpu_count() or 4
    res = explore(mod, cases, procs, max_fail=int(os.environ.get("VERIF_MAX_FAIL", "40")))
    known = load_known(pid)
    seen_known, unknown = {}, []
    for i, k, m in sorted(res["fails"]):
        if k in known:
            seen_known[k] = m
        else:
            unknown.append((i, k, m))
    # determinism of the explored executions
    redo = sorted(set([0, len(cases) // 2, len(cases) - 1]))
    redone = 0
    for i in redo:
        if unknown:
            break
        if any(j == i for j, _, _ in res["fails"]):
            continue
        a, b = explore(mod, [cases[i]], 1, 10), explore(mod, [cases[i]], 1, 10)
        if (a["points"], a["ops"], a["outcomes"], a["states"]) != \
           (b["points"], b["ops"], b["outcomes"], b["states"]):
            unknown.append((i, full_key(cases[i], "nondeterministic"),
                            "two executions of the same case differ"))
        redone += 2
    path = None
    if unknown:
        unknown.sort()
        i, k, m = unknown[0]
        os.makedirs(os.path.join(env.VERIF, "replays"), exist_ok=True)
        path = os.path.join(env.VERIF, "replays", "%s-%s.json" % (pid, keys[i]))
        again = [len(explore(mod, [cases[i]], 1, 10)["fails"]) for _ in range(2)] \
            if not k.endswith("/lost") else ["not repeated"]
        with open(path, "w") as f:
            json.dump({"property": pid, "tier": tier, "case": cases[i], "key": k, "message": m,
                       "failures_on_two_replays": again,
                       "replay": "cd /verif && ./run.sh %s --replay %s" % (pid, path)}, f, indent=1)
    wall = time.time() - t0
    samples = []
    for i in redo:
        s = cases[i]
        samples.append(s if len(json.dumps(s)) < 1500 else {"id": full_key(s, "")[:-1],
                                                            "digest": keys[i]})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": len(res["states"]),
            "transitions": res["ops"],
            "traces_validated_against_impl": res["run"] - len(set(f[0] for f in res["fails"])),
            "cases_in_space": len(cases),
            "cases_executed": res["run"],
            "comparisons_with_model": res["points"],
            "distinct_outcomes": len(res["outcomes"]),
            "determinism_reruns": redone,
            "slowest_case_s": res["slowest"][0],
            "slowest_case": full_key(cases[res["slowest"][1]], "")[:-1],
            "exhaustive": bool(res["complete"]) and res["run"] == len(cases),
            "rule": mod.RULE,
            "bounds": mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
            "samples": samples,
            "known_findings_reproduced": sorted(seen_known),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(unknown),
    }
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(env.VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d/%d cases, %d states, %d operations, %d comparisons, %d distinct outcomes, %.1f s"
          % (pid, tier, res["run"], len(cases), len(res["states"]), res["ops"], res["points"],
             len(res["outcomes"]), wall))
    for k in sorted(known):
        if k in seen_known:
            print("KNOWN-FINDING: property=%s %s [%s]" % (pid, known[k], k))
    if unknown:
        for i, k, m in unknown[:5]:
            print("  %s: %s" % (k, m))
        if len(unknown) > 5:
            print("  ... %d further" % (len(unknown) - 5))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if len(res["outcomes"]) < 2:
        print("vacuous exploration: fewer than two distinct outcomes")
        return 3
    return 0

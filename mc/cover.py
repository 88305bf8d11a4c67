"""Development aid: which lines of the code under test a check executes.
Off unless VERIF_COVER names a directory; every process writes the set of
lines it has seen there."""
import os
import sys

DIR = os.environ.get("VERIF_COVER")
seen = set()
_dumped = [0]


def start(src):
    if not DIR:
        return
    mon = sys.monitoring
    mon.use_tool_id(3, "verif")
    src = os.path.realpath(src)+os.sep

    def line(code, no):
        f = os.path.realpath(code.co_filename)
        if f.startswith(src):
            seen.add((f[len(src):], no))
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)


def dump():
    if not DIR or len(seen) == _dumped[0]:
        return
    _dumped[0] = len(seen)
    with open(os.path.join(DIR, "%d.txt" % os.getpid()), "w") as f:
        for a, b in sorted(seen):
            f.write("%s %d\n" % (a, b))

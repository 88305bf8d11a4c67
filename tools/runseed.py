#!/usr/bin/env python3
"""runseed.py [ID ..] : run the check of its property against every planted bug
(in a scratch copy, through VERIF_REPO); with --all every check."""
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
ALL = "--all" in sys.argv
for s in sorted(os.listdir(VERIF+"/seeded")):
    if args and s not in args:
        continue
    d = VERIF+"/seeded/"+s
    copy = "/tmp/runseed_%d" % os.getpid()
    shutil.rmtree(copy, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", copy], check=True)
    try:
        subprocess.run(["git", "apply", d+"/patch.diff"], cwd=copy, check=True)
        prop = json.load(open(d+"/meta.json"))["property"]
        props = ["C%02d" % i for i in range(1, 26)] if ALL else [prop]
        caught = []
        for q in props:
            p = subprocess.run(["./run.sh", q], cwd=VERIF, env=dict(os.environ, VERIF_REPO=copy),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = p.stdout.decode()
            if p.returncode == 1 and "VIOLATION property="+q in o:
                caught.append(q)
            elif p.returncode:
                caught.append(q+"(rc%d)" % p.returncode)
                print(o[-600:])
        print(s, prop, "CAUGHT" if prop in caught else "MISSED", " ".join(caught), flush=True)
    finally:
        shutil.rmtree(copy, ignore_errors=True)

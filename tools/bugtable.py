#!/usr/bin/env python3
"""refresh the table of planted bugs in DESIGN.md; new rows are 'caught' unless named as arguments (missed at first)"""
import json
import os
import re
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + "/DESIGN.md").read()
rows = re.findall(r"^\| (C\d\d-[\w-]+) \| .* \| (\w+) \|\n", s, re.M)
state = dict(rows)
first = re.search(r"^\| C\d\d-[\w-]+ \| ", s, re.M).start()
last = list(re.finditer(r"^\| C\d\d-[\w-]+ \| .*\n", s, re.M))[-1].end()
new = ""
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    new += "| %s | %s | %s |\n" % (d, m["needs"].replace("|", "/"), "missed" if d in sys.argv[1:] else state.get(d, "caught"))
open(V + "/DESIGN.md", "w").write(s[:first] + new + s[last:])

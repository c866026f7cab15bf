#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md. Missed ones: tools/missed.txt (ids, may be absent)."""
import json, os, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = collections.defaultdict(list)
for i in sorted(os.listdir(V + "/seeded")):
    d[json.load(open("%s/seeded/%s/meta.json" % (V, i)))["property"]].append(i)
try: missed = set(open(V + "/tools/missed.txt").read().split())
except OSError: missed = set()
p = V + "/DESIGN.md"; s = open(p).read(); m = "## Which check catches which planted bug\n"
s = s.split(m)[0].rstrip() + "\n\n" + m + "\nEach bug was run against the quick check of the property it breaks (`seedlib.py catch`).\n%d bugs, %d not caught.\n\n| check | caught | bugs |\n|----|----|----|\n" % (sum(map(len, d.values())), len(missed))
for k in sorted(d):
    s += "| %s | %d of %d | %s |\n" % (k, len(set(d[k]) - missed), len(d[k]), ", ".join((x[4:] if x.startswith(k.lower() + "-") else x) + (" (missed)" if x in missed else "") for x in d[k]))
open(p, "w").write(s)

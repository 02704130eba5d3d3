#!/usr/bin/env python3
"""Rewrites the job table of DESIGN.md from checks/jobs.py."""
import os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(ROOT, "checks"))
import jobs
out = []
for p in sorted(jobs.PROPERTIES):
    out.append("\n**%s**\n" % p)
    for j in jobs.PROPERTIES[p]:
        if isinstance(j, jobs.MC): b = "MC, deviations %s" % ("<= %d quick, <= %d thorough" % (j.q, j.t) if j.q is not None else "<= %d, thorough only" % j.t)
        elif isinstance(j, jobs.SEQ): b = ("instruction stepping" if j.mode == "fast" else "SEQ") + ("" if j.quick else ", thorough only")
        else: b = "Python explorer"
        out.append("* `%s` (%s): %s" % (j.name, b, j.what))
f = os.path.join(ROOT, "DESIGN.md"); s = open(f).read(); a, b = "<!-- jobs -->", "<!-- end of jobs -->"
i, k = s.index(a) + len(a), s.index(b); open(f, "w").write(s[:i] + "\n".join(out) + "\n" + s[k:])

#!/usr/bin/env python3
"""Prints, per property, the obligations (code function <- reference function) read from /verif/spec."""
import re, glob, os, collections
d = collections.defaultdict(list); here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec")
for f in sorted(glob.glob(os.path.join(here, "*.cc"))):
    for n, l in enumerate(open(f), 1):
        m = re.match(r"\s*//@ ((?:C\d+[ ,]*)+)(.*)", l)
        if m:
            for p in re.findall(r"C\d+", m.group(1)): d[p].append("%s (%s:%d)" % (m.group(2).strip(), os.path.basename(f), n))
for p in sorted(d):
    print("%s: %d" % (p, len(d[p])))
    for x in d[p]: print("   " + x)

"""Lists the functions of the repository without a reference."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.setrecursionlimit(20000)
import frontend, equiv
P = frontend.load(); Q = equiv.Equiv(P)
have = {id(o.code) for o in Q.obs if o.code}
n = 0; rows = []
seenq = set()
for f in P.functions.values():
    if not f.get("repo") or "body" not in f or "/spec/" in f["file"] or f.get("implicit") or f.get("defaulted"): continue
    n += 1
    if id(f) in have: continue
    rows.append((f["file"].replace("/repo/wicked/", ""), f["line"], f["q"], len(f["params"])))
for r in sorted(rows): print("%s:%d %s/%d" % r)
print(n, len(have), len(rows))

#!/usr/bin/env python3
"""Development tool: decides every obligation and rule for WICKED_REPO and prints one JSON object.
With --base FILE (fingerprints of the unchanged tree, made with --fingerprint FILE) only obligations that reach a changed function are decided."""
import sys, os, json, hashlib, argparse, glob, importlib, itertools, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib")); sys.setrecursionlimit(20000)
threading.stack_size(512 * 1024 * 1024)
import frontend
def fingerprint(P, f):
    ids = {}
    def conv(o):
        if isinstance(o, dict):
            r = []
            for k in sorted(o):
                v = o[k]
                if k in ("l", "line", "file", "unit", "key"): continue
                if k == "id" and isinstance(v, str) and not v.startswith("G:"): v = ids.setdefault(v, len(ids))
                elif k in ("t", "tt", "rt", "from", "ct", "ret", "clst", "ft", "ts", "base") and isinstance(v, int): v = P.types[v].get("s") if v >= 0 else ""
                elif k == "f" and isinstance(v, str) and "@" in v: v = v.split("@")[-1] if ".cc@" in v else v
                r.append((k, conv(v)))
            return r
        if isinstance(o, list): return [conv(x) for x in o]
        return o
    return hashlib.sha1(json.dumps(conv({k: f.get(k) for k in ("body", "inits", "params", "ret", "noexc")})).encode()).hexdigest()[:16]
def main():
    ap = argparse.ArgumentParser(); ap.add_argument("--base"); ap.add_argument("--fingerprint"); ap.add_argument("--props"); a = ap.parse_args()
    t0 = time.time()
    P = frontend.load()
    fs = {k: f for k, f in P.functions.items() if f.get("repo") and "body" in f and "/spec/" not in f["file"]}
    fp = {(f["q"] + "(" + ",".join(str(P.types[t].get("s")) for t in f.get("ptypes", []) if t >= 0) + ")" if ".cc@" not in k else k.split("@")[-1] + f["q"] + "#L"): None for k, f in fs.items()}
    cur = {}
    for k, f in fs.items():
        kk = f["q"] + "(" + ",".join(P.types[p["t"]].get("s", "") for p in f.get("params", [])) + ")"
        cur.setdefault(kk, []).append(fingerprint(P, f))
    for k in cur: cur[k] = sorted(cur[k])
    gl = {}
    for k, g in P.globals.items():
        if g.get("repo"): gl["G:" + g["n"]] = fingerprint(P, {"body": g.get("init")})
    cur.update(gl)
    if a.fingerprint: json.dump(cur, open(a.fingerprint, "w")); return
    changed = None
    if a.base:
        b = json.load(open(a.base))
        changed = {k for k in set(b) | set(cur) if b.get(k) != cur.get(k)}
    import equiv, terms as TM, importlib
    from rules import RULES
    for f in sorted(glob.glob(os.path.join(V, "lib", "rules_*.py"))): importlib.import_module(os.path.basename(f)[:-3])
    Q = equiv.Equiv(P)
    name = lambda f: f["q"] + "(" + ",".join(P.types[p["t"]].get("s", "") for p in f.get("params", [])) + ")"
    callees = {}
    def direct(f):
        out = set()
        def w(o):
            if isinstance(o, dict):
                i = o.get("f")
                if isinstance(i, str) and i in fs: out.add(i)
                if o.get("k") == "ref" and str(o.get("id", "")).startswith("G:"): out.add(o["id"])
                for v in o.values():
                    if isinstance(v, (dict, list)): w(v)
            elif isinstance(o, list):
                for v in o: w(v)
        w(f.get("body")); w(f.get("inits"))
        return out
    def reach(f):
        seen = set(); todo = [f["key"]]
        while todo:
            k = todo.pop()
            if k in seen: continue
            seen.add(k)
            if k.startswith("G:"): continue
            if k not in callees: callees[k] = direct(fs.get(k) or f)
            todo += list(callees[k])
        return {name(fs[k]) if k in fs else "G:" + (P.globals.get(k, {}).get("n") or k) for k in seen}
    res = []
    props = set(a.props.split(",")) if a.props else None
    for o in Q.obs:
        if props and not props & set(o.props): continue
        if changed is not None and o.code and not (reach(o.code) & changed): continue
        verd = {}
        for s in (0, 1000):
            if s and all(v.v == "eq" for v in verd.values()): break
            if s: TM._fresh = itertools.count(s * 1000 + 10 ** 6)
            for comp, v in Q.check(o):
                old = verd.get(comp)
                if old is None or (old.v != "eq" and (v.v == "eq" or (v.v == "diff" and old.v == "unk"))): verd[comp] = v
        for c, v in verd.items():
            if v.v != "eq": res.append({"props": o.props, "name": o.name(), "comp": c, "v": v.v, "path": " > ".join(v.path)[:300], "code": str(v.code)[:300], "ref": str(v.ref)[:300]})
    for p, l in RULES.items():
        if props and p not in props: continue
        for n, fn in l:
            try: r = fn(P)
            except Exception as x:
                if os.environ.get("WDEBUG"): raise
                res.append({"props": [p], "name": n, "comp": "rule", "v": "CRASH", "path": repr(x)}); continue
            for f in r.findings: res.append({"props": [p], "name": n, "comp": "rule", "v": "diff", "path": "%s:%s %s %s" % (os.path.basename(f.file), f.line, f.where, f.detail)})
    print(json.dumps({"changed": sorted(changed) if changed is not None else None, "res": res, "t": time.time() - t0}))
t = threading.Thread(target=main); t.start(); t.join()

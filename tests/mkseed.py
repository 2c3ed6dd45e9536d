#!/usr/bin/env python3
"""Development tool: turns the planted bugs described in tests/seeds.py into /verif/seeded/<id>/ after confirming each:
it builds, the stable tests pass, the demonstration passes without it and fails with it.  Works on /repo, which must be clean, and restores it."""
import sys, os, json, subprocess, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
REPO = "/repo"
def sh(c, t=900, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t, **k)
def clean(): return sh("git -C /repo status --porcelain").stdout.strip() == ""
def main():
    ns = {}; exec(open(os.path.join(HERE, "seeds.py")).read(), ns)
    want = sys.argv[1:]
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    assert clean()
    for s in ns["SEEDS"]:
        if want and s["id"] not in want: continue
        d = os.path.join(V, "seeded", s["id"])
        if not want and os.path.exists(d + "/patch.diff"): continue
        os.makedirs(d, exist_ok=True)
        demo = s["demo"]
        if "sh" in s:
            open(d + "/demo.sh", "w").write(s["sh"])
            for n, c in s.get("files", {}).items(): open(d + "/" + n, "w").write(c)
        else:
            open(d + "/demo.py", "w").write(demo)
            open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec timeout 250 /usr/bin/python3 "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        ok = True; why = ""
        try:
            sh("bash /opt/vp/build.sh")
            r = sh("bash %s/demo.sh" % d, cwd=REPO)
            if r.returncode: ok = False; why = "demo fails on the unchanged tree: " + r.stdout[-600:] + r.stderr[-600:]
            for f, old, new in s["edits"]:
                p = os.path.join(REPO, f); t = open(p).read()
                if t.count(old) != 1: ok = False; why = "text occurs %d times in %s" % (t.count(old), f); break
                open(p, "w").write(t.replace(old, new))
            if ok:
                r = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
                try: res = json.load(open("/tmp/seedtest.json"))
                except Exception: res = {"passed": []}
                miss = stable - set(res["passed"])
                if miss: ok = False; why = "stable tests fail: %s %s" % (sorted(miss)[:3], (r.stdout + r.stderr)[-500:] if len(miss) > 60 else "")
            if ok:
                r = sh("bash %s/demo.sh" % d, cwd=REPO)
                if r.returncode == 0: ok = False; why = "demo passes with the change: " + r.stdout[-300:]
            if ok: open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        finally:
            sh("git -C /repo checkout -- ."); sh("bash /opt/vp/build.sh")
        if ok:
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            print("KEPT", s["id"], flush=True)
        else:
            shutil.rmtree(d); print("DROPPED", s["id"], why, flush=True)
main()

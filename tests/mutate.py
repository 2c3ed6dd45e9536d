#!/usr/bin/env python3
"""Development tool: plants many small source changes in scratch copies and reports how each is judged.
mutate.py --n 200 --seed 1 --out OUT.jsonl [--files sub,sub]"""
import sys, os, re, json, random, subprocess, argparse, shutil, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "/repo"
def code_lines(path):
    """(line number, text, start offset) of the lines that hold code"""
    out = []; incomment = False; inprint = 0
    for i, l in enumerate(open(path).read().split("\n")):
        s = l.strip()
        if incomment:
            if "*/" in s: incomment = False
            continue
        if s.startswith("/*"):
            incomment = "*/" not in s; continue
        if inprint:
            inprint += l.count("(") - l.count(")")
            continue
        if s.startswith("PRINT(") or s.endswith("\\"):
            inprint = 0 if s.endswith("\\") else l.count("(") - l.count(")")
            continue
        if not s or s.startswith(("//", "#", "namespace", "using", "class ", "struct ", "public:", "private:", "template")): continue
        out.append((i, l))
    return out
def nostr(l):
    """blank out string and character literals, comments"""
    def rep(m): return "\x00" * len(m.group(0))
    l = re.sub(r'"(?:[^"\\]|\\.)*"', rep, l); l = re.sub(r"'(?:[^'\\]|\\.)'", rep, l)
    return re.sub(r"//.*", rep, l)
SUBS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" < ", " > "), (r" > ", " < "), (r" == ", " != "), (r" != ", " == "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "),
        (r"\+=", "-="), (r"-=", "+="), (r"\*=", "/="), (r" and ", " or "), (r" or ", " and "), (r" && ", " || "), (r" \|\| ", " && "), (r"!(?=[a-zA-Z_(])", ""),
        (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b2\b", "1"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bcontinue\b", "break"), (r"\bbreak\b", "continue"),
        (r"\bupper\b", "lower"), (r"\blower\b", "upper"), (r"\bcre\b", "ann"), (r"\bann\b", "cre"), (r"\bfirst\b", "second"), (r"\bsecond\b", "first"), (r"\bminrank\b", "maxrank"), (r"\bmaxrank\b", "minrank"),
        (r"\bleft\b", "right"), (r"\bright\b", "left"), (r"\bOccupied\b", "Unoccupied"), (r"\bUnoccupied\b", "Occupied"), (r"\bCreation\b", "Annihilation"), (r"\bAnnihilation\b", "Creation"), (r"\bFermion\b", "Boson"),
        (r"\bAntisymmetric\b", "Symmetric"), (r"\bSymmetric\b", "Antisymmetric"), (r"\bcreation\b", "annihilation"), (r"\bannihilation\b", "creation"), (r"\.at\(", ".find("), (r"std::min\b", "std::max"), (r"\bpush_back\b", "size"),
        (r"\bscalar_t\b", "int"), (r"\blong long\b", "int"), (r"\bint\b", "short"), (r"\bconst \w+ &", "auto "), (r"\+\+", "--"), (r"\bunordered_", ""), (r"std::sort\b", "std::reverse"), (r"\bthrow\b", "(void)"), (r"\bstatic\b", ""), (r"^(\s*)std::(vector|map|string|pair)\b", r"\1static std::\2"),
        (r"\bii\b", "jj"), (r"\bi\b", "j"), (r"\bj\b", "i"), (r"\bs1\b", "s2"), (r"\bk\b", "c"), (r"\ba\b", "b"), (r"\bb\b", "a"), (r"\blhs\b", "rhs"), (r"\brhs\b", "lhs"), (r"\bnumerator_\b", "denominator_"), (r"\bdenominator_\b", "numerator_")]
def mutants(files):
    out = []
    for path in files:
        rel = os.path.relpath(path, BASE)
        lines = code_lines(path)
        prev = "{"
        for i, l in lines:
            m = nostr(l)
            for pat, new in SUBS:
                for x in re.finditer(pat, m):
                    nl = l[:x.start()] + x.expand(new) + l[x.end():]
                    if nl != l: out.append((rel, i, l, nl, "%s->%s" % (pat, new)))
            s = m.strip()
            if s.endswith(";") and prev.rstrip().endswith((";", "{", "}")) and not s.startswith(("return", "}")) and not re.match(r"^(const |auto |int |std::\w+<|bool |size_t )", s): out.append((rel, i, l, "", "delete"))
            x = re.search(r"\bif \((.*)\) \{", m)
            if x and x.group(1).count("(") == x.group(1).count(")"):
                for new in ("true", "false", "!(" + l[x.start(1):x.end(1)] + ")"): out.append((rel, i, l, l[:x.start(1)] + new + l[x.end(1):], "if " + new[:5]))
            for x in re.finditer(r"\((\w+), (\w+)\)", m): out.append((rel, i, l, l[:x.start(1)] + x.group(2) + ", " + x.group(1) + l[x.end(2):], "swap"))
            for x in re.finditer(r"return (?!$)([^;]+);", m):
                e = l[x.start(1):x.end(1)]
                if "<" in m or "==" in m: out.append((rel, i, l, l[:x.start(1)] + "!(" + e + ")" + l[x.end(1):], "negate return"))
            prev = m
    return out
def files(sel=None):
    out = []
    for root, d, fs in sorted(os.walk(BASE + "/wicked")):
        d[:] = sorted(x for x in d if x not in ("fmt", "__pycache__"))
        for f in sorted(fs):
            p = os.path.join(root, f)
            if f.endswith((".cc", ".h", ".hpp")) and f not in ("stl_utils.hpp", "timer.hpp", "wick_theorem_helpers.cc"):
                if not sel or any(s in p for s in sel): out.append(p)
    return out
def evaluate(worker, edits, timeout=600, props=None):
    """edits: {relative path: new text}"""
    d = "/tmp/mw%d" % worker; repo = d + "/repo"
    if not os.path.isdir(repo):
        os.makedirs(d, exist_ok=True); subprocess.run(["cp", "-a", BASE, repo], check=True)
    for rel in edits:
        with open(os.path.join(repo, rel), "w") as f: f.write(edits[rel])
    try:
        env = dict(os.environ, WICKED_REPO=repo, WICKED_CACHE=d + "/ast"); os.makedirs(d + "/ast", exist_ok=True)
        r = subprocess.run([sys.executable, V + "/tests/evalall.py", "--base", "/tmp/base.json"] + (["--props", props] if props else []), capture_output=True, text=True, env=env, timeout=timeout)
        if r.returncode or not r.stdout.strip(): return {"error": r.stderr[-600:]}
        return json.loads(r.stdout.strip().split("\n")[-1])
    except subprocess.TimeoutExpired: return {"error": "timeout"}
    finally:
        for rel in edits: shutil.copy2(os.path.join(BASE, rel), os.path.join(repo, rel))
def main():
    ap = argparse.ArgumentParser(); ap.add_argument("--n", type=int, default=100); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--out", default="/tmp/mut.jsonl"); ap.add_argument("--files"); ap.add_argument("--workers", type=int, default=7)
    a = ap.parse_args()
    ms = mutants(files(a.files.split(",") if a.files else None))
    random.Random(a.seed).shuffle(ms)
    ms = ms[:a.n]
    q = queue.Queue(); [q.put(m) for m in ms]
    lock = threading.Lock(); out = open(a.out, "w"); stat = {}
    def work(w):
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            rel, i, l, nl, op = m
            t = open(os.path.join(BASE, rel)).read().split("\n"); t[i] = nl
            r = evaluate(w, {rel: "\n".join(t)})
            if "error" in r: v = "nocompile" if "cannot parse" in r["error"] or "errors generated" in r["error"] or "error generated" in r["error"] else "error:" + r["error"][-200:]
            elif not r["changed"]: v = "nochange"
            else:
                vs = {x["v"] for x in r["res"]}
                v = "CRASH" if "CRASH" in vs else "diff" if "diff" in vs else "unk" if "unk" in vs else "none"
            with lock:
                stat[v.split(":")[0]] = stat.get(v.split(":")[0], 0) + 1
                out.write(json.dumps({"v": v, "file": rel, "line": i + 1, "old": l.strip(), "new": nl.strip(), "op": op, "props": sorted({p for x in r.get("res", []) if x["v"] == "diff" for p in x["props"]}), "res": [(x["v"], x["name"], x["comp"], x["path"][:150]) for x in r.get("res", [])][:6], "changed": (r.get("changed") or [])[:4]}) + "\n"); out.flush()
    ts = [threading.Thread(target=work, args=(w,)) for w in range(a.workers)]
    [t.start() for t in ts]; [t.join() for t in ts]
    print(len(ms), stat)
if __name__ == "__main__": main()

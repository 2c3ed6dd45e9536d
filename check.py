#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: decides one property from /repo's current source.
exit 0: held on everything analysed;  exit 1: VIOLATION line(s);  exit 2: the analysis itself is broken."""
import sys, os, json, time, argparse, traceback, importlib, glob, re
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)

def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    import frontend
    evf = os.path.join(VERIF, "evidence", a.prop + ".json")
    os.makedirs(os.path.dirname(evf), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
    import equiv, terms as TM
    from rules import RULES
    for f in sorted(glob.glob(os.path.join(VERIF, "lib", "rules_*.py"))): importlib.import_module(os.path.basename(f)[:-3])
    P = frontend.load()
    rel = lambda p: os.path.relpath(p, frontend.REPO) if p and p.startswith(frontend.REPO) else p
    known = []
    kf = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kf): known = [k for k in json.load(open(kf)).get("findings", []) if k["property"] == a.prop]
    viol = []; knownhit = []; und = []; samples = []; funcs = set(); comps = 0; disch = 0; nob = 0; decided = 0
    def report(key, file, line, where, rule, detail, extra=None):
        for k in known:
            if k["key"] == key: knownhit.append(k); return
        viol.append({"key": key, "file": rel(file), "line": line, "function": where, "rule": rule, "detail": detail, "extra": extra or {}})
    # 1. comparison with reference functions
    Q = equiv.Equiv(P)
    obs = [o for o in Q.obs if a.prop in o.props]
    seeds = [0, 1000] if tier == "quick" else [0, 1000, 77777, 500000]
    import itertools
    for o in obs:
        nob += 1
        if o.code: funcs.add(o.code["q"])
        verdicts = {}
        for s in seeds:
            if s and tier == "quick" and all(v.v == "eq" for v in verdicts.values()): break
            if s: TM._fresh = itertools.count(s * 1000 + 10 ** 6)
            for comp, v in Q.check(o):
                old = verdicts.get(comp)
                # any numbering that proves equality proves it
                if old is None or v.v == "eq" or (v.v == "diff" and old.v == "unk"):
                    if old is None or old.v != "eq": verdicts[comp] = v
        if verdicts and all(v.v != "unk" for v in verdicts.values()): decided += 1
        for comp, v in verdicts.items():
            comps += 1
            if v.v == "eq": disch += 1
            elif v.v == "unk": und.append("%s [%s]: %s" % (o.name(), comp, " > ".join(v.path)[:200]))
            else:
                disch += 1
                f = o.code
                case = ["%s%s" % ("" if b else "not ", str(c)[:200]) for c, b in v.case]
                report("ref|%s|%s" % (o.target, comp), f["file"], f["line"], f["q"], "agrees with its reference " + o.name(),
                       "component '%s' differs%s: code %s / reference %s" % (comp, (" at " + " > ".join(v.path)) if v.path else "", str(v.code)[:300], str(v.ref)[:300]),
                       {"case": case, "reference": "spec/%s:%d" % (os.path.basename(o.file), o.line)})
        if len(samples) < 25 and verdicts: samples.append("%s: %s" % (o.name(), ", ".join("%s=%s" % (c or "-", v.v) for c, v in verdicts.items())))
    # 2. dataflow, effect and consistency analyses
    rnotes = []
    for name, fn in RULES.get(a.prop, []):
        r = fn(P)
        nob += 1
        if r.checked: decided += 1
        comps += r.checked + len(r.undecided); disch += r.checked
        funcs |= set(r.functions)
        und += ["%s: %s" % (name, u) for u in r.undecided]
        samples += ["%s: %s" % (name, s) for s in r.samples[:8]]
        rnotes.append("%s: %d instances checked, %d undecided, %d violations. %s" % (name, r.checked, len(r.undecided), len(r.findings), (r.note or (fn.__doc__ or "")).strip()))
        for f in r.findings: report(f.key, f.file, f.line, f.where, f.rule, f.detail)
    if decided == 0: raise frontend.AnalysisError("no obligation of %s could be decided" % a.prop)
    ev = {"property": a.prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": "other",
          "coverage": {"explanation": "Static: every function under the rules below was parsed from the current source with the build's flags; its value flow "
                       "(result, exception condition, final state of every modifiable argument and of the registry) was summarised by gated global value numbering "
                       "and compared component by component with the summary of a reference function; further instances come from the listed analyses. "
                       "Nothing of the code under analysis was run.",
                       "translation_units": len(P.srcs), "obligations": nob, "obligations_decided": decided, "components": comps, "components_decided": disch,
                       "functions_analysed": sorted(funcs), "rules": rnotes, "undecided": und[:60], "undecided_count": len(und),
                       "known_findings": [k["key"] for k in knownhit], "samples": samples},
          "assumptions": ["integers of the expression layer do not overflow their type unless the property is about width",
                          "calls of functions with a reference of their own behave as that reference",
                          "standard containers and boost::multiprecision behave as documented"],
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    json.dump(ev, open(evf, "w"), indent=1)
    for k in knownhit: print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    print("%s: %d obligations (%d decided), %d components (%d decided), %d undecided, %d functions, %.1f s" % (a.prop, nob, decided, comps, disch, len(und), len(funcs), time.time() - t0))
    for u in und[:20]: print("  undecided " + u)
    for k, v in enumerate(viol):
        path = os.path.join(VERIF, "replay", "%s-%d.json" % (a.prop, k))
        json.dump(v, open(path, "w"), indent=1)
        print("  %s:%s %s: rule '%s' broken: %s" % (v["file"], v["line"], v["function"], v["rule"], v["detail"][:900]))
        for c in v["extra"].get("case", []): print("      when " + c)
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
    return 1 if viol else 0

if __name__ == "__main__":
    rc = [2]
    def run():
        try: rc[0] = main(sys.argv[1:])
        except SystemExit as e: rc[0] = e.code if isinstance(e.code, int) else 2
        except BaseException as e:
            traceback.print_exc(); print("ANALYSIS-BROKEN: %s" % e); rc[0] = 2
    t = threading.Thread(target=run); t.start(); t.join()
    sys.stdout.flush()
    sys.exit(rc[0])

"""Obligations 'code = reference' taken from the annotated functions in spec/*.cc."""
import re, glob, os, time
import frontend
from summary import *
from anchors import ANCHORS, COMPARISONS, OPAQUE
import diff as DF

class Obligation:
    def __init__(self, props, target, opts, specfile, line): self.props = props; self.target = target; self.opts = opts; self.file = specfile; self.line = line; self.spec = None; self.code = None
    def name(self): return "%s = %s:%d" % (self.target, os.path.basename(self.file), self.line)

ANN = re.compile(r"^\s*//@\s+(\S+)\s+(.*?)\s*$")
def load_obligations(P):
    out = []
    for fn in sorted(glob.glob(os.path.join(frontend.VERIF, "spec", "*.cc"))):
        fs = sorted((f for f in P.functions.values() if f.get("file") == fn and "body" in f and f["q"].startswith("spec::")), key=lambda f: f["line"])
        lines = open(fn).read().split("\n")
        marks = [(i + 1, ANN.match(l)) for i, l in enumerate(lines)]
        marks = [(i, m) for i, m in marks if m]
        for k, (i, m) in enumerate(marks):
            words = m.group(2).split(" | ")
            target = words[0].strip(); opts = words[1].split() if len(words) > 1 else []
            nxt = marks[k + 1][0] if k + 1 < len(marks) else 10 ** 9
            line2 = next((j for j in range(i, len(lines)) if lines[j].strip() and not lines[j].strip().startswith("//") and not lines[j].startswith("template")), i)
            cands = [f for f in fs if i < f["line"] < nxt and f["line"] == min([g["line"] for g in fs if i < g["line"] < nxt] or [0]) and f["line"] <= line2 + 2]
            if not cands:
                o = Obligation(m.group(1).split(","), target, opts, fn, i); out.append(o); continue
            for f in cands:
                o = Obligation(m.group(1).split(","), target, opts, fn, i); o.spec = f; out.append(o)
    return out

def strip_targs(q): 
    out = ""; d = 0
    for ch in q:
        if ch == "<": d += 1
        elif ch == ">": d -= 1
        elif d == 0: out += ch
    return out

class Equiv:
    def __init__(self, P):
        self.P = P
        self.engines = {}
        self.obs = load_obligations(P)
        E = self.engine(())
        self.Ty = E.Ty
        byq = {}
        for f in P.functions.values():
            if f.get("repo") and "body" in f and not f["file"].startswith(os.path.join(frontend.VERIF, "spec")):
                byq.setdefault(strip_targs(f["q"]), []).append(f)
        self.bind = None
        for o in self.obs:
            if not o.spec: continue
            if o.target.startswith("api "):
                self.bound(o); continue
            c = [f for f in byq.get(strip_targs(o.target), []) if self.matches(f, o.spec)]
            if len(c) >= 1: o.code = c[0]
    def bound(self, o):
        """the exported function an obligation 'api Class.name' is about"""
        import bindings
        if self.bind is None: self.bind = bindings.bindings(self.P)
        name = o.target[4:]
        cs = [b for b in self.bind if b.q() == name]
        o.binding = None; o.why = None
        if not cs:
            cls = name.split(".")[0] if "." in name else None
            o.why = "no exported function %s" % name
            return
        for b in cs:
            if b.target is None or "body" not in b.target: continue
            w = bindings.wrapper(self.P, b)
            ps = o.spec["params"]
            if len(ps) == len(w["params"]) and all(self.tkey(a["t"]) == self.tkey(p["t"]) for a, p in zip(ps, w["params"])):
                o.code = w; o.binding = b; return
        o.why = "no exported function %s with these arguments" % name
    def engine(self, opts):
        key = tuple(sorted(x for x in opts if x in ("exact", "lin0", "lin1", "lin2", "allinline", "bounds", "strong")))
        e = self.engines.get(key)
        if e is None:
            e = Engine(self.P, anchors=ANCHORS, inline_rational="exact" in key)
            for k in (0, 1, 2):
                if "lin%d" % k in key: e.lin = k
            e.bounds = "bounds" in key; e.strong = "strong" in key
            self.engines[key] = e
        return e
    def tkey(self, t):
        n = self.Ty.canon(self.Ty.cname(t))
        return n
    def matches(self, f, g):
        ps = list(g["params"]); names = [p["n"] for p in ps]
        if f.get("method") and not f.get("static"):
            if not ps or ps[0]["n"] != "self" or self.tkey(ps[0]["t"]) != self.tkey(f["clst"]): return False
            ps = ps[1:]
        elif ps and ps[0]["n"] == "self": return False
        return len(ps) == len(f["params"]) and all(self.tkey(a["t"]) == self.tkey(b["t"]) for a, b in zip(ps, f["params"]))
    def summaries(self, o, alias=None, expand=()):
        E = self.engine(tuple(o.opts))
        old = E.anchors
        expand = set(expand) | {x[7:] for x in o.opts if x.startswith("expand=")}
        if expand: E.anchors = set(old) - set(expand); E.opened = frozenset(expand)
        try:
            names = []
            g = o.spec
            hasself = bool(g["params"]) and g["params"][0]["n"] == "self" and not o.target.startswith("api ")
            if hasself: names = ["this"]
            names += ["a%d" % k for k in range(len(g["params"]) - len(names))]
            al = None
            if alias: al = {k: "this" for k in alias}
            C = E.summarise(o.code, alias=al, names=names if o.target.startswith("api ") else None)
            S = E.summarise(o.spec, names=names, alias={k + 1: 0 for k in alias} if alias else None)
        finally: E.anchors = old; E.opened = frozenset()
        return C, S
    def check(self, o):
        """list of (component, verdict)"""
        if not o.spec: return [("", DF.UNK(None, None, "the reference does not fit the declarations of the code any more"))]
        if not o.code and o.target.startswith("api "): return [("", DF.UNK(None, None, o.why))]
        if not o.code: return [("", DF.UNK(None, None, "no function %s with this signature" % o.target))]
        try: return self.check1(o)
        except Unsupported as x: return [("", DF.UNK(None, None, "construct outside the analysis: %s" % x))]
        except TooBig as x: return [("", DF.UNK(None, None, "too large: %s" % x))]
        except RecursionError: return [("", DF.UNK(None, None, "recursion limit"))]
        except (KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError) as x:
            if os.environ.get("WDEBUG"): raise
            return [("", DF.UNK(None, None, "construct outside the analysis (%s: %s)" % (type(x).__name__, x)))]
    def check1(self, o):
        res = self.compare(o, None)
        if o.target.startswith("api "):
            # operands the reference does not modify must come out as they were
            C, S = self.summaries(o)
            for k, x in C.items():
                if k[0] == "a" and k not in dict(S.items()) and not (x.op == "sym" and x.args[0].split("`")[0] == k):
                    res = [(c, v) for c, v in res if c != k] + [(k, DF.DIFF(x, None, "an operand is modified"))]
            want = [x[4:] for x in o.opts if x.startswith("arg:")]
            if want:
                have = ["%s%s" % (n, "=" + d if d is not None and "=" in w else "") for (n, d), w in zip(o.binding.args, want)]
                bad = [(w, h) for w, h in zip(want, have) if w != h]
                if len(o.binding.args) < len(want) or any("?" in h for _, h in bad): res.append(("arguments", DF.UNK(None, None, "keywords %s" % (o.binding.args,))))
                elif bad: res.append(("arguments", DF.DIFF(str(bad[0][1]), str(bad[0][0]), "keyword or default value")))
                else: res.append(("arguments", DF.EQV))
        if "self" in o.opts: res += [("aliased " + n, v) for n, v in self.compare(o, (0,))]
        return res
    def compare(self, o, alias):
        C, S = self.summaries(o, alias)
        res = self.cmp_summaries(C, S)
        if any(v.v != "eq" for _, v in res):
            # look into operations only one side calls
            one = {self.P.functions[k]["q"] for k in (C.calls ^ S.calls) if k in self.P.functions}
            one |= {self.P.functions[k]["n"] for k in (C.calls ^ S.calls) if k in self.P.functions}
            one -= COMPARISONS | OPAQUE
            # the comparisons of a class are related: all of them or none
            opened = {q.rsplit("::", 1)[0] for q in one if q.split("::")[-1] in COMPARISONS}
            one |= {q for q in (self.P.functions[k]["q"] for k in C.calls | S.calls if k in self.P.functions) if q.split("::")[-1] in COMPARISONS and q.rsplit("::", 1)[0] in opened}
            if one:
                try:
                    C2, S2 = self.summaries(o, alias, one)
                    res2 = self.cmp_summaries(C2, S2)
                    if all(v.v == "eq" for _, v in res2): return res2
                    if not any(v.v == "diff" for _, v in res): res = res2
                    else: res = [(k, v) if k != "exception" else (k, next((w for j, w in res2 if j == k), v)) for k, v in res]     # what the operations only one side calls throw
                except (Unsupported, TooBig, RecursionError): pass
            # operations both sides call, where one side relies on what they do
            apps = set()
            for _, v in res:
                if v.v == "eq": continue
                for t in (v.code, v.ref):
                    if isinstance(t, T): apps |= {x.args[0] for x in DF.subterms(t, set()) if x.op == "app"}
            both = {self.P.functions[k]["q"] for k in (C.calls | S.calls) if k in self.P.functions and self.P.functions[k].get("repo") and any(a.split("(")[0].split("!")[0] == self.P.functions[k]["q"] or a.split(" of ")[0] == self.P.functions[k]["n"] and self.P.functions[k]["n"] in COMPARISONS and self.P.functions[k].get("clst", -1) >= 0 and a.split(" of ")[1] == self.Ty.canon(self.Ty.cname(self.P.functions[k]["clst"])).split("::")[-1] for a in apps)}
            both -= one; both -= {o.code["q"]}; both -= OPAQUE
            small = {q for q in both if not any(f["q"] == q and f["key"] in self.recursive() for f in self.P.functions.values())}
            small = {self.byq1(q) if q.split("::")[-1] in COMPARISONS else q for q in small}
            if 0 < len(small) <= 3:
                try:
                    C2, S2 = self.summaries(o, alias, one | small)
                    res2 = self.cmp_summaries(C2, S2)
                    if all(v.v == "eq" for _, v in res2): return res2
                except (Unsupported, TooBig, RecursionError): pass
        return res
    def byq1(self, q): return q.split("::")[-1]
    def recursive(self):
        if not hasattr(self, "_rec"):
            self._rec = set()
            for k, f in self.P.functions.items():
                if f.get("repo") and "body" in f:
                    def w(z):
                        if isinstance(z, dict): return z.get("f") == k or any(w(v) for v in z.values() if isinstance(v, (dict, list)))
                        return any(w(v) for v in z) if isinstance(z, list) else False
                    if w(f["body"]): self._rec.add(k)
        return self._rec
    def cmp_summaries(self, C, S):
        out = []
        cmpr = DF.Comparer()
        out.append(("exception", cmpr.run(C.exc, S.exc)))
        ok = pnot(S.exc)
        if S.dirty == [] and C.dirty: out.append(("state on exception", DF.DIFF(None, None, "%s is changed before an exception leaves" % ", ".join(x.replace("in:", "") for x in C.dirty))))
        c, s = dict(C.items()), dict(S.items())
        if "result" in c and "result" not in s and False: pass
        for k in sorted(set(c) | set(s)):
            if k not in c or k not in s:
                x = c.get(k) or s.get(k)
                if k == "osi": out.append((k, DF.DIFF(c.get(k), s.get(k), "the registry is changed" if k in c else "the registry is not changed"))); continue
                if k.startswith("a") or k == "this":
                    # not modifiable on one side: compare with the unchanged input
                    if x.op == "sym" and x.args[0].split("`")[0] == k: continue
                    out.append((k, DF.UNK(c.get(k), s.get(k), "modified on one side only"))); continue
                out.append((k, DF.UNK(c.get(k), s.get(k), "present on one side only"))); continue
            out.append((k, self.afterwards(DF.Comparer().run(c[k], s[k], ok), c[k], s[k], C.exc)))
        return out
    # members that mirror what other members of the same object hold
    MIRROR = {"label_to_pos_", "indices_to_pos_", "space_info_"}
    def unused(self, c, s):
        """an input the reference depends on and the code does not: nothing computed from the rest can make up for it"""
        C = inputs(c, set(), set())
        for p in sorted(inputs(s, set(), set())):
            if p[0].startswith(("s#", "n#", "G:")) or "#" in p[0] or self.MIRROR & set(p) or p[0] == "osi": continue
            if not any(q[:len(p)] == p or p[:len(q)] == q for q in C): return ".".join(p)
        return None
    def certain(self, exc, a):
        """an exception leaves whenever a holds"""
        return not isinstance(exc, T) or not ispoly(exc) or constval(DF.replace(exc, {a: ONE})) == 1
    def afterwards(self, r, c, s, exc):
        """differences that show in the shape of the whole"""
        if r.v != "unk" or not isinstance(c, T) or not isinstance(s, T): return r
        lost = self.unused(c, s)
        if lost: return DF.DIFF(c, s, "does not depend on %s" % lost)
        A, B = DF.subterms(c, set()), DF.subterms(s, set())
        inlam = set()
        for t in A:
            if t.op in ("sort", "lam"): inlam |= DF.subterms(t.args[-1] if t.op == "sort" else t, set())
        if not any(t.op in ("first", "any", "mu") for t in B):
            ranges = {t.args[2][0] if t.op == "fold" else t.args[0] for t in B if t.op in ("fold", "sum", "cmap", "prod")}
            for t in A - inlam:
                if t.op in ("fold", "sum", "cmap", "prod"):
                    n = t.args[2][0] if t.op == "fold" else t.args[0]
                    f = single_atom(n) if isinstance(n, T) and ispoly(n) else None
                    if f is not None and f.op == "first" and f.args[0] in ranges and not any(a.op == "any" and a.args[0] is f.args[0] and a.args[2] is f.args[2] and self.certain(exc, a) for a in DF.subterms(exc, set())): return DF.DIFF(t, s, "the loop is left early")
        x, y = r.code, r.ref
        if isinstance(x, T) and isinstance(y, T) and not any(p.startswith("in ") for p in r.path):
            X, Y = {t.op for t in DF.subterms(x, set())}, {t.op for t in DF.subterms(y, set()) if not (t.op == "entries" and DF.is_path(t))}
            if "sort" in X and "mu" not in X and not Y & {"sort", "perm", "entries", "mu"} and not any(p.startswith(w) for p in r.path for w in ("perm argument", "par argument", "any argument", "sum argument", "prod argument", "summand")): return DF.DIFF(x, y, "additional sort")
        return r

def inputs(t, out, seen):
    """access paths of inputs a term is computed from"""
    if isinstance(t, tuple):
        for x in t: inputs(x, out, seen)
        return out
    if not isinstance(t, T) or t in seen: return out
    seen.add(t)
    if t.op in ("sym", "field", "at", "entries"):
        p = []; x = t
        while x.op in ("field", "at", "entries"):
            if x.op == "field": p.append(x.args[1])
            elif x.op == "at": p.append("[]"); inputs(x.args[1], out, seen)
            x = x.args[0]
        if x.op == "sym": out.add((x.args[0].split("`")[0],) + tuple(reversed(p))); return out
        return inputs(x, out, seen)
    for x in t.args: inputs(x, out, seen)
    return out

if __name__ == "__main__":
    import sys; sys.setrecursionlimit(20000)
    P = frontend.load()
    for e in P.errors: print("SPEC ERROR", e)
    Q = Equiv(P)
    sel = sys.argv[1:]
    n = {"eq": 0, "diff": 0, "unk": 0}
    for o in Q.obs:
        if sel and not any(x in o.name() or x in o.props for x in sel): continue
        t = time.time()
        for comp, v in Q.check(o):
            n[v.v] += 1
            if v.v != "eq":
                print("%-5s %s [%s] %s" % (v.v.upper(), o.name(), comp, " > ".join(v.path)))
                if v.case: print("      case " + ", ".join("%s%s" % ("" if b else "not ", str(a)[:int(os.environ.get("CW","150"))]) for a, b in v.case))
                print("      code", str(v.code)[:int(os.environ.get("W", "400"))]); print("      ref ", str(v.ref)[:int(os.environ.get("W", "400"))])
        if time.time() - t > 2: print("   slow %.1f %s" % (time.time() - t, o.name()))
    print(n, len(Q.obs))

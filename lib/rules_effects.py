"""Rules decided with the effect analysis: data races (C09), state kept between computations (C11), who may change the registry (C03)."""
import copy
import flow
from effects import Effects, Ctx
from rules import rule, Result

_E = {}
def effects(P):
    if id(P) not in _E: _E[id(P)] = Effects(P, flow.Types(P))
    return _E[id(P)]
def repo_functions(P):
    return [f for f in P.functions.values() if f.get("repo") and "body" in f and "/spec/" not in f["file"]]
def nodes(o, kinds=None):
    """every node below o"""
    if isinstance(o, dict):
        if o.get("k") and (kinds is None or o["k"] in kinds): yield o
        for v in o.values():
            if isinstance(v, (dict, list)): yield from nodes(v, kinds)
    elif isinstance(o, list):
        for v in o: yield from nodes(v, kinds)
def place(P, root, member, params=None):
    if root == "this": return "this->%s" % (member or "*")
    if root[0] == "g":
        g = P.globals.get(root[1])
        return "%s%s" % ((g or {}).get("n") or ("static " + root[1][2:] if root[1].startswith("S:") else root[1]), "." + member if member else "")
    if root[0] == "p": return "parameter %d%s" % (root[1], "." + member if member else "")
    return "local %s%s" % (root[1], "." + member if member else "")
IGNORED = ("c:@N@std@cout", "c:@N@std@cerr", "c:@N@std@clog")
def ignored(P, E, root):
    if isinstance(root, tuple) and root[0] == "g":
        i = root[1]
        if any(x in i for x in IGNORED): return True
        g = P.globals.get(i)
        if g:
            if g.get("tls"): return True
            if not g.get("repo"): return True
            if P.types[g["t"]].get("const"): return True
    return False

# ------------------------------------------------------------------ C09
LAUNCH = ("std::async", "std::thread::thread", "std::jthread::jthread")
def launches(P, E, f):
    """launch sites of a function: (call node, callable, arguments)"""
    for n in nodes(f["body"], ("call", "ctor", "mcall")):
        g = P.functions.get(n.get("f") or "")
        if g is None: continue
        q = g["q"].split("<")[0]
        args = n.get("a") or []
        if q == "std::async":
            a = args[1:] if args and "launch" in E.tname(args[0].get("t")) else args
            if a: yield n, a[0], a[1:]
        elif q in ("std::thread::thread", "std::jthread::jthread") and args: yield n, args[0], args[1:]
        elif g["n"] in ("emplace_back", "emplace") and n["k"] == "mcall" and "thread" in E.tname((n.get("o") or {}).get("t")) and args:
            if any(x.get("k") == "lambda" for x in args): yield n, args[0], args[1:]
        elif g["n"] == "for_each" and "execution" in E.tname((args[0] or {}).get("t") if args else -1) and "sequenced" not in E.tname(args[0].get("t")): yield n, args[-1], []
def peel(e):
    while isinstance(e, dict) and e.get("k") in ("cast", "ctor") and (e.get("k") == "cast" or len(e.get("a") or []) == 1):
        a = e["a"]; e = a[0] if isinstance(a, list) else a
    return e
def jointypes(E, t): return any(x in E.tname(t) for x in ("future", "thread"))
def loopvars(body, target):
    """variables declared inside the innermost loops around the launch, by value"""
    out = {}
    def walk(o, inside):
        if isinstance(o, dict):
            if o is target:
                out.update(inside); return
            k = o.get("k")
            ins = inside
            if k in ("for", "rfor", "while", "do"):
                ins = dict(inside)
                if k == "rfor":
                    v = o["var"]; ins[v["id"]] = v
                if k == "for":
                    for n in nodes(o.get("init"), ("decl",)):
                        for v in n["a"]: ins[v["id"]] = v
                # declared in the body: not those of nested lambdas
                for n in nodes(o.get("body"), ("decl",)):
                    for v in n["a"]:
                        if isinstance(v, dict): ins[v["id"]] = v
            for v in o.values():
                if isinstance(v, (dict, list)): walk(v, ins)
        elif isinstance(o, list):
            for v in o: walk(v, inside)
    walk(body, {})
    return out

class TaskCtx(Ctx):
    """effects of a task body: what is captured by value is private to the task"""
    private = frozenset(); inner = frozenset()
    def roots(self, e):
        if isinstance(e, dict) and e.get("k") == "ref" and e["id"] in self.private: return {(("priv", e["id"]), "")}
        if isinstance(e, dict) and e.get("k") == "this" and "this" in self.private: return {(("priv", "this"), "")}
        return super().roots(e)

@rule("C09")
def data_races(P):
    """lock-set analysis of every concurrent task: the storage shared between tasks, and between the tasks and the launching thread until the last join, is read-only or consistently locked"""
    E = effects(P); r = Result(); nsites = 0
    for f in repo_functions(P):
        sites = list(launches(P, E, f))
        if not sites: continue
        r.functions.add(f["q"])
        base = E.context(f)
        lvals = {}
        for d in nodes(f["body"], ("decl",)):
            for v in d["a"]:
                if isinstance(v, dict): lvals[v["id"]] = v
        tasks = []; lambdas = []
        for call, fn, args in sites:
            nsites += 1
            lam = peel(fn)
            if lam.get("k") == "ref" and lam["id"] in lvals:
                lam = peel(lvals[lam["id"]].get("init") or {})
            c = TaskCtx(E, f); c.aliases()
            private = set(); byref = set()
            if lam.get("k") == "lambda":
                lambdas.append(lam)
                for cap in lam.get("caps", []):
                    if cap.get("this"):
                        if cap.get("bystar"): private.add("this")
                    elif cap.get("byref"): byref.add(cap["id"])
                    else:
                        v = lvals.get(cap["id"])
                        t = v["t"] if v else (c.params[cap["id"]][1]["t"] if cap["id"] in c.params else -1)
                        y = P.types[t] if t is not None and t >= 0 else {}
                        if y.get("k") == "ptr" or E.kind(t)[0] in ("iter", "ptr", "sptr"): continue     # the copy still points to the same object
                        private.add(cap["id"])
                inner = {v["id"] for d in nodes(lam.get("body"), ("decl",)) for v in d["a"] if isinstance(v, dict)}
                for n in nodes(lam.get("body"), ("rfor",)): inner.add(n["var"]["id"])
                for p in lam.get("params", []): inner.add(p["id"]) if isinstance(p, dict) else None
                inner = {i for i in inner if not lvals.get(i, {}).get("static")}
                c.private = frozenset(private)
                body = lam.get("body")
                if lam.get("caps") is None or body is None: r.unk("%s:%s task of unknown body" % (f["q"], call.get("l"))); continue
                c.stmt(body, frozenset())
                eff = {x for x in c.eff if not (isinstance(x[0], tuple) and (x[0][0] == "priv" or (x[0][0] == "l" and x[0][1] in inner)))}
                # variables of the launching scope captured by reference
                lv = loopvars(f["body"], call)
                for i in byref & set(lv):
                    v = lv[i]
                    if E.isref(v["t"]): continue
                    if v["id"] in {x["id"] for d in nodes(lam.get("body"), ("decl",)) for x in d["a"]}: continue
                    r.bad(f["file"], call.get("l") or f["line"], f["q"], "tasks refer only to storage that outlives them",
                          "a task launched inside a loop captures '%s', which belongs to one pass of the loop, by reference" % v["n"])
                rt = f.get("ret", -1)
                if rt is not None and rt >= 0 and jointypes(E, rt):
                    for i in byref:
                        v = lvals.get(i) or (c.params[i][1] if i in c.params else None)
                        if v is not None and not E.isref(v["t"]) and not v.get("static"):
                            r.bad(f["file"], call.get("l") or f["line"], f["q"], "tasks refer only to storage that outlives them",
                                  "a task returned to the caller captures the local '%s' by reference" % v["n"])
            else:
                # a function with its arguments: those not wrapped by std::ref are copied
                fr = [x for x in nodes(fn, ("fref",))]
                if len(fr) != 1: r.unk("%s:%s callable not resolved" % (f["q"], call.get("l"))); continue
                g = P.functions.get(fr[0]["f"])
                if g is None or "body" not in g: r.unk("%s:%s callable without body" % (f["q"], call.get("l"))); continue
                aa = []
                for a in args:
                    y = P.types[a["t"]] if a.get("t", -1) is not None and a.get("t", -1) >= 0 else {}
                    if a.get("k") == "this" or y.get("k") == "ptr" or "reference_wrapper" in E.tname(a.get("t")): aa.append(a)
                    else: aa.append({"k": "ref", "id": "task-copy", "t": a.get("t"), "l": call.get("l")})
                c.private = frozenset({"task-copy"})
                node = {"k": "mcall", "f": g["key"], "o": aa[0], "a": aa[1:], "l": call.get("l"), "t": g.get("ret")} if g.get("method") and not g.get("static") else {"k": "call", "f": g["key"], "a": aa, "l": call.get("l"), "t": g.get("ret")}
                c.expr(node, frozenset())
                eff = {x for x in c.eff if not (isinstance(x[0], tuple) and x[0][0] == "priv")}
                byref = set()
            # each task writing its own element of a container prepared beforehand
            own = own_elements(lam, private, lvals) if lam.get("k") == "lambda" else set()
            eff = {x for x in eff if not (isinstance(x[0], tuple) and x[0][0] == "l" and x[0][1] in own)}
            for i in own: r.unk("%s: each task addresses elements of '%s' by its own index" % (f["q"], (lvals.get(i) or {}).get("n", i)))
            tasks.append((call, eff))
        # the launching thread, from the first launch to the last join
        top = f["body"]["a"] if f["body"].get("k") == "block" else [f["body"]]
        calls = [c for c, _, _ in sites]
        has = lambda s, p: any(p(n) for n in nodes(s))
        first = min(k for k, s in enumerate(top) if has(s, lambda n: any(n is c for c in calls)))
        def isjoin(n):
            if n.get("k") != "mcall": return False
            g = P.functions.get(n.get("f") or "")
            return g is not None and g["n"] in ("get", "wait", "join") and jointypes(E, (n.get("o") or {}).get("t"))
        joins = [k for k, s in enumerate(top) if has(s, isjoin)]
        last = max(joins) if joins else len(top) - 1
        region = copy.deepcopy([strip(s, lambdas, calls) for s in top[first:last + 1]])
        c = E.context(f); c.eff = set()
        c.stmt(region, frozenset())
        shared_by_tasks = set()
        for _, eff in tasks: shared_by_tasks |= {x[0] for x in eff}
        parent = {x for x in c.eff if x[0] in shared_by_tasks}
        allt = set().union(*[e for _, e in tasks]) if tasks else set()
        seen = set(); nloc = {}
        for w in sorted(allt | parent, key=str):
            root, m, rw, lk, site = w
            if ignored(P, E, root): continue
            nloc.setdefault((root, m), set()).add((rw, lk))
            if rw != "W": continue
            for x in sorted(allt | parent, key=str):
                if x[0] != root or not (x[1] == m or not x[1] or not m): continue
                if w in parent and x in parent and w not in allt and x not in allt: continue
                if set(x[3]) & set(lk): continue
                key = (root, m, site, x[4])
                if (root, m, site[2]) in seen: continue
                seen.add((root, m, site[2]))
                r.bad(site[0], site[1], site[2], "storage shared between threads is read-only or locked",
                      "%s is written here %s and accessed in %s (line %s) %s, with no common lock, while tasks of %s run" %
                      (place(P, root, m), "under " + ", ".join(map(str, lk)) if lk else "without a lock", x[4][2], x[4][1], "under a lock" if x[3] else "without a lock", f["q"]),
                      key="race|%s|%s" % (place(P, root, m), site[2]))
        for (root, m), acc in sorted(nloc.items(), key=str):
            r.ok("%s: %s %s" % (f["q"], place(P, root, m), "/".join(sorted({a for a, _ in acc})) + (" under lock" if all(l for _, l in acc) else "")))
    if not nsites: r.ok("no concurrent task is launched by any function of the library")
    r.note = "%d launch sites" % nsites
    return r
def strip(s, lambdas, calls):
    """the statement without the bodies of the launched tasks"""
    if isinstance(s, dict):
        if any(s is l for l in lambdas): return {"k": "nop"}
        return {k: strip(v, lambdas, calls) for k, v in s.items()}
    if isinstance(s, list): return [strip(x, lambdas, calls) for x in s]
    return s
def own_elements(lam, private, lvals):
    """containers captured by reference that the task only uses as X[i] with an index of its own"""
    body = lam.get("body")
    own = {}; other = set()
    def walk(o, parent):
        if isinstance(o, dict):
            if o.get("k") == "ref": other.add(o["id"]) if not parent else None
            if (o.get("k") == "mcall" and o.get("op") == "[]") or o.get("k") == "sub":
                b = o.get("o") if o["k"] == "mcall" else o["a"]
                ix = (o.get("a") or [None])[0] if o["k"] == "mcall" else o["b"]
                ix = peel(ix)
                if isinstance(b, dict) and b.get("k") == "ref" and isinstance(ix, dict) and ix.get("k") == "ref" and ix["id"] in private:
                    own[b["id"]] = True; return
            for v in o.values():
                if isinstance(v, (dict, list)): walk(v, None)
        elif isinstance(o, list):
            for v in o: walk(v, None)
    walk(body, None)
    return {i for i in own if i not in other}

# ------------------------------------------------------------------ C11
class Order:
    """first access to a member on every path: 'kill' (fully overwritten), 'use', or None"""
    def __init__(self, P, cls, member): self.P = P; self.cls = cls; self.m = member; self.memo = {}
    def ismember(self, e): return isinstance(e, dict) and e.get("k") == "member" and e.get("f") == self.m and (e.get("rec") or "") == self.cls
    def fn(self, f):
        k = f["key"]
        if k in self.memo: return self.memo[k]
        self.memo[k] = None
        self.memo[k] = self.seq([f["body"]])
        return self.memo[k]
    def seq(self, l):
        for s in l:
            r = self.stmt(s)
            if r: return r
        return None
    def stmt(self, s):
        if s is None: return None
        if isinstance(s, list): return self.seq(s)
        k = s.get("k")
        if k == "block": return self.seq(s["a"])
        if k == "expr": return self.expr(s["e"])
        if k == "decl": return self.seq_e([v.get("init") for v in s["a"] if isinstance(v, dict)])
        if k == "ret": return self.expr(s.get("e"))
        if k == "if":
            r = self.stmt(s.get("init")) or self.expr(s["c"])
            if r: return r
            if self.printing(s.get("a")) and not s.get("b"): return None
            a = self.stmt(s.get("a")); b = self.stmt(s.get("b"))
            if a == "use" or b == "use": return "use"
            return "kill" if a == "kill" and b == "kill" else None
        if k in ("for", "rfor", "while", "do"):
            for key in ("init", "range", "c"):
                x = s.get(key)
                r = self.stmt(x) if isinstance(x, dict) and x.get("k") in ("decl", "expr", "block") else self.expr(x)
                if r: return r
            r = self.stmt(s.get("body"))
            if r == "use": return r
            if r == "kill" and k == "do": return r
            return None if r != "use" else r
        if k == "try": return self.stmt(s.get("body"))
        return self.expr(s)
    def printing(self, s):
        """a block that only writes to a stream: what it reads does not reach a result"""
        if s is None: return False
        for n in nodes(s, ("assign", "ret", "throw")): return False
        for n in nodes(s, ("un",)):
            if n.get("op") in ("++", "--"): return False
        return any("cout" in (n.get("id") or "") for n in nodes(s, ("ref",)))
    def seq_e(self, l):
        for e in l:
            r = self.expr(e)
            if r: return r
        return None
    def expr(self, e):
        if isinstance(e, list): return self.seq_e(e)
        if not isinstance(e, dict): return None
        k = e.get("k")
        if self.ismember(e): return "use"
        if k == "assign" and self.ismember(e["a"]):
            r = self.expr(e["b"])
            if r: return r
            return "kill" if e.get("op") == "=" else "use"
        if k == "mcall":
            f = self.P.functions.get(e.get("f") or "")
            if self.ismember(e.get("o")):
                r = self.seq_e(e.get("a") or [])
                if r: return r
                if f and f["n"] in ("clear", "operator=", "assign") or e.get("op") == "=": return "kill"
                return "use"
            r = self.expr(e.get("o")) or self.seq_e(e.get("a") or [])
            if r: return r
            if f and "body" in f and f.get("cls") == self.cls and (e.get("o") or {}).get("k") == "this": return self.fn(f)
            return None
        if k == "cond":
            r = self.expr(e["c"])
            if r: return r
            a = self.expr(e["a"]); b = self.expr(e["b"])
            if "use" in (a, b): return "use"
            return "kill" if a == b == "kill" else None
        if k == "lambda": return self.stmt(e.get("body"))
        for v in e.values():
            if isinstance(v, (dict, list)):
                r = self.expr(v)
                if r: return r
        return None

def reach(P, roots):
    out = {}; todo = list(roots)
    while todo:
        f = todo.pop()
        if f["key"] in out: continue
        out[f["key"]] = f
        for n in nodes([f.get("body"), f.get("inits")]):
            i = n.get("f")
            if isinstance(i, str) and i in P.functions:
                g = P.functions[i]
                if g.get("repo") and "body" in g and "/spec/" not in g["file"]: todo.append(g)
    return out
def statistics(P, fs, cls, member):
    """every occurrence is the target of a compound assignment statement, or is printed"""
    for f in fs:
        def ok(o):
            if isinstance(o, dict):
                if o.get("k") == "expr":
                    e = o["e"]
                    t = None
                    if e.get("k") == "assign": t, rest = e["a"], e["b"]
                    elif e.get("k") == "un" and e.get("op") in ("++", "--"): t, rest = e["a"], None
                    if t is not None:
                        while isinstance(t, dict) and (t.get("k") == "sub" or (t.get("k") == "mcall" and t.get("op") == "[]")):
                            t = t["a"] if t["k"] == "sub" else t["o"]
                        if isinstance(t, dict) and t.get("k") == "member" and t.get("f") == member and t.get("rec") == cls: return ok(rest) if rest else True
                    if any("cout" in (n.get("id") or "") for n in nodes(e, ("ref",))) and e.get("op") == "<<": return True
                if o.get("k") == "member" and o.get("f") == member and o.get("rec") == cls: return False
                return all(ok(v) for v in o.values() if isinstance(v, (dict, list)))
            if isinstance(o, list): return all(ok(v) for v in o)
            return True
        if not ok(f["body"]): return False
    return True
NONDET = ("rand", "srand", "time", "random_device", "getenv", "mt19937", "get_id", "hardware_concurrency")

@rule("C11")
def state_between_computations(P):
    """members written while contracting are overwritten before they are read (or only ever accumulate statistics); options are not written by computations; no function-local or namespace-scope variable is modified or initialised from the arguments of one call"""
    E = effects(P); r = Result()
    cls = "WickTheorem"
    contracts = [f for f in repo_functions(P) if f.get("cls") == cls and f["n"] == "contract"]
    R = reach(P, contracts)
    methods = [f for f in R.values() if f.get("cls") == cls]
    for f in methods: r.functions.add(f["q"])
    written = {}
    for f in contracts:
        for (root, m, rw, lk, site) in E.compute(f)[0]:
            if root == "this" and rw == "W": written.setdefault(m, site)
    setters = {}
    for f in repo_functions(P):
        if f.get("cls") == cls and f["key"] not in R and not f.get("ctor"):
            for (root, m, rw, lk, site) in E.compute(f)[0]:
                if root == "this" and rw == "W": setters.setdefault(m, f["q"])
    for m, site in sorted(written.items()):
        if statistics(P, methods, cls, m): r.ok("%s: only accumulates, never read by a computation" % m); continue
        if m in setters:
            r.bad(site[0], site[1], site[2], "options change only through their setters", "'%s', which %s sets, is written while contracting" % (m, setters[m]), key="option|%s" % m); continue
        bad = False
        for f in contracts:
            o = Order(P, cls, m)
            if o.fn(f) == "use":
                bad = True
                r.bad(f["file"], f["line"], f["q"], "working storage is overwritten before it is read",
                      "member '%s' is written while contracting (%s line %s), and a contraction reads what an earlier one left in it" % (m, site[2], site[1]), key="state|%s" % m)
                break
        if not bad: r.ok("%s: overwritten before it is read" % m)
    for rec in P.records.values():
        if rec.get("n") == cls or rec.get("q") == cls:
            for fl in rec.get("fields", []):
                if fl["n"] not in written: r.ok("%s: not written by any computation" % fl["n"])
    # globals, statics, mutable members
    allowed = ("OrbitalSpaceInfo",)
    seen = set()
    for f in repo_functions(P):
        if f.get("cls") in allowed and f["n"] in ("add_space", "reset"): continue
        if f["n"].startswith(("PyInit_", "pybind11_init_")): continue       # module initialisation, run once by the interpreter
        c = E.compute(f)[0]
        for (root, m, rw, lk, site) in c:
            if rw == "W" and isinstance(root, tuple) and root[0] == "g" and not ignored(P, E, root):
                if "add_space" in site[2] or site[2].endswith("::reset"): continue
                if (root, site[2]) in seen: continue
                g = P.globals.get(root[1]); nm = place(P, root, m)
                if g and any(x in E.tname(g.get("t")) for x in ("mutex", "atomic", "once_flag", "condition_variable")): continue
                seen.add((root, site[2]))
                r.bad(site[0], site[1], site[2], "no computation modifies static or global storage", "%s is modified" % nm, key="static|%s|%s" % (nm, site[2]))
            if rw == "W" and m in E.mutables and root == "this" and f.get("constm") and (m, site[2]) not in seen:
                seen.add((m, site[2]))
                tn = ""
                if statistics(P, [g for g in repo_functions(P) if g.get("cls") == f.get("cls")], f.get("cls"), m): continue
                r.bad(site[0], site[1], site[2], "no computation keeps results in mutable members", "mutable member '%s' is written in a const function" % m, key="mutable|%s|%s" % (m, f.get("cls")))
        r.functions.add(f["q"]); r.checked += 1
        # static locals initialised from the first call's circumstances
        params = {p["id"] for p in f.get("params", [])}
        locs = {v["id"]: v for d in nodes(f["body"], ("decl",)) for v in d["a"] if isinstance(v, dict)}
        for d in nodes(f["body"], ("decl",)):
            for v in d["a"]:
                if not isinstance(v, dict) or not v.get("static") or v.get("init") is None: continue
                why = None
                init = v["init"]
                inlam = {x["id"] for dd in nodes(init, ("decl",)) for x in dd["a"] if isinstance(x, dict)} | {x["id"] for l in nodes(init, ("lambda",)) for x in l.get("params", []) if isinstance(x, dict)}
                for n in nodes(init):
                    if n.get("k") == "this": why = "the object"
                    if n.get("k") == "ref" and n["id"] in params: why = "argument '%s'" % n["n"]
                    if n.get("k") == "ref" and n["id"] in locs and n["id"] not in inlam and not locs[n["id"]].get("static"):
                        if not E.isref(v["t"]) or True: why = "local '%s'" % n["n"]
                if not why:
                    cc = E.context(f); cc.eff = set(); cc.expr(init, frozenset())
                    for (root, m, rw, lk, site) in cc.eff:
                        if isinstance(root, tuple) and root[0] == "g" and not ignored(P, E, root) and not root[1].startswith("S:"): why = "the state of %s" % place(P, root, m)
                if why: r.bad(f["file"], v.get("l") or f["line"], f["q"], "no computation keeps results in static storage", "static '%s' is initialised once, from %s" % (v["n"], why), key="staticinit|%s|%s" % (f["q"], v["n"]))
    # sources of non-determinism
    for f in R.values():
        for n in nodes(f["body"], ("call", "mcall", "ctor")):
            g = P.functions.get(n.get("f") or "")
            if g and not g.get("repo") and (g["n"] in NONDET or any(x in g["q"] for x in ("random_device", "mersenne_twister", "shuffle_order_engine"))) and "chrono" not in g["q"]:
                r.bad(f["file"], n.get("l") or f["line"], f["q"], "a computation depends only on its inputs", "calls %s" % g["q"], key="nondet|%s|%s" % (f["q"], g["n"]))
    return r

# ------------------------------------------------------------------ C03
@rule("C03", "C11")
def registry_is_changed_only_by_add_and_reset(P):
    """the containers of the registry and the registry object are written only by add_space, reset and helpers that nothing else calls; no function hands out a modifiable reference to them"""
    E = effects(P); r = Result()
    recs = [x for x in P.records.values() if x.get("n") == "OrbitalSpaceInfo" or x.get("q") == "OrbitalSpaceInfo"]
    fields = {fl["n"] for x in recs for fl in x.get("fields", [])}
    if not fields: r.unk("OrbitalSpaceInfo not found"); return r
    fs = repo_functions(P)
    callers = {}
    for f in fs:
        for n in nodes([f["body"], f.get("inits")]):
            if isinstance(n.get("f"), str): callers.setdefault(n["f"], set()).add(f["key"])
    allowed = {f["key"] for f in fs if f.get("cls") == "OrbitalSpaceInfo" and (f["n"] in ("add_space", "reset") or f.get("ctor") or f["n"] == "operator=" or f["n"].startswith("~"))}
    # private helpers that only the mutators call
    ch = True
    while ch:
        ch = False
        for f in fs:
            if f["key"] not in allowed and callers.get(f["key"]) and callers[f["key"]] <= allowed and (f.get("access") == 2 or not f.get("method")):
                allowed.add(f["key"]); ch = True
    okq = {f["q"] for f in fs if f["key"] in allowed}
    for f in fs:
        r.functions.add(f["q"]); r.checked += 1
        if f["key"] in allowed: continue
        for (root, m, rw, lk, site) in E.compute(f)[0]:
            hit = (f.get("cls") == "OrbitalSpaceInfo" and root == "this" and (m in fields or not m)) or (isinstance(root, tuple) and root[0] == "g" and "orbital_subspaces" in root[1]) 
            if hit and rw == "W" and site[2] not in okq:
                r.bad(site[0], site[1], site[2], "only add_space and reset change the registry", "%s is written" % (place(P, root, m)), key="registry|%s|%s" % (site[2], m))
        if f.get("cls") == "OrbitalSpaceInfo" and E.isref(f.get("ret", -1)) and not E.refconst(f["ret"]):
            if any(x[0] == "this" for x in E.compute(f)[1]):
                r.bad(f["file"], f["line"], f["q"], "no function hands out modifiable registry storage", "returns a non-constant reference into the registry", key="leak|" + f["q"])
    r.samples.append("registry containers: " + ", ".join(sorted(fields)))
    return r

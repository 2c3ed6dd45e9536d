"""Interprocedural effect analysis: which storage a function may read or write, under which locks.

Storage is named (root, member): root is "this", ("p", k) for the k-th parameter, ("g", id) for globals and function-local statics, ("l", id)
for a local variable; member is the first member selected from it.  Flow-insensitive, except that locks held are tracked block by block."""
ACCESS = {"operator[]", "at", "begin", "end", "front", "back", "size", "empty", "find", "count", "cbegin", "cend", "rbegin", "rend", "operator*", "operator->", "length", "data",
          "lower_bound", "upper_bound", "equal_range", "contains", "get", "operator()", "base", "str", "c_str", "value", "has_value", "first", "second", "capacity", "compare", "substr", "max_size", "crbegin", "crend", "load", "capacity", "native_handle",
          "operator bool", "operator=="}
READONLY = {"find", "find_if", "find_if_not", "accumulate", "count", "count_if", "equal", "lexicographical_compare", "max_element", "min_element", "min", "max", "all_of", "any_of", "none_of", "get", "tie", "distance",
            "begin", "end", "cbegin", "cend", "to_string", "format", "gcd", "lcm", "is_sorted", "is_permutation", "adjacent_find", "binary_search", "lower_bound", "upper_bound", "for_each", "inner_product", "mismatch", "search",
            "make_pair", "make_tuple", "forward_as_tuple", "as_const", "size", "next", "prev", "abs", "addressof", "forward", "ref", "cref", "operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>=", "operator<=>",
            "operator+", "operator-", "operator*", "operator/", "make_optional", "hash", "all", "adjacent_difference", "reduce", "transform_reduce", "isspace", "isdigit", "stoi", "stoll", "quoted", "setw", "move", "make_shared"}
OUTPUT = {"copy", "copy_if", "transform", "partial_sum", "set_union", "set_difference", "set_intersection", "back_inserter", "merge", "partial_sort_copy", "unique_copy", "inserter"}

class Effects:
    def __init__(self, P, Ty):
        self.P = P; self.Ty = Ty
        self.memo = {}; self.stack = set()
        self.dirty = False
        self.mutables = {fl["n"] for r in P.records.values() for fl in r.get("fields", []) if fl.get("mutable") and "/spec/" not in r.get("file", "")}
        self.lambdas = {}      # key of a lambda's operator() -> lambda node
        for f in list(P.functions.values()):
            if "body" in f and f.get("repo"): self.find_lambdas(f["body"])
        for g in P.globals.values():
            if g.get("repo") and g.get("init"): self.find_lambdas(g["init"])
    def find_lambdas(self, o):
        if isinstance(o, dict):
            if o.get("k") == "lambda": self.lambdas[o.get("f")] = o
            for v in o.values(): self.find_lambdas(v)
        elif isinstance(o, list):
            for v in o: self.find_lambdas(v)
    # ------------------------------------------------------------ types
    def kind(self, t):
        if t is None or t < 0: return ("",)
        return self.Ty.info(t)
    def isref(self, t): return t is not None and t >= 0 and self.P.types[t].get("k") in ("ref", "rref", "ptr")
    def refconst(self, t):
        y = self.P.types[t]
        return y.get("k") in ("ref", "rref", "ptr") and self.P.types[y["to"]].get("const", False)
    def reflike(self, t):
        """values of this type share the storage of what they were made from"""
        if t is None or t < 0: return False
        if self.isref(t): return True
        k = self.kind(t)
        n = self.P.types[t].get("n", "") if isinstance(self.P.types[t].get("n", ""), str) else ""
        return k[0] in ("iter", "ptr", "sptr") or "reference_wrapper" in n or "string_view" in n or n.startswith("std::span") or n.startswith("std::ranges") or n.startswith("enumerate_class")
    def tname(self, t): return self.P.types[t].get("s", "") if t is not None and t >= 0 else ""
    # ------------------------------------------------------------ per function context
    def context(self, f):
        c = Ctx(self, f); c.aliases(); return c
    def summary(self, f):
        """set of (root, member, 'R'|'W', locks, site)"""
        key = f["key"]
        if key in self.memo and key not in self.stack and not self.fix: return self.memo[key][0]
        return self.compute(f)[0]
    fix = False
    def compute(self, f):
        key = f["key"]
        if key in self.stack: self.dirty = True; return self.memo.get(key, (frozenset(), frozenset()))
        if key in self.memo: return self.memo[key]
        if "body" not in f: return (frozenset(), frozenset())
        top = not self.stack
        self.stack.add(key)
        prev = (frozenset(), frozenset())
        for rnd in range(6):
            self.memo[key] = prev
            rec = self.dirty; self.dirty = False
            c = self.context(f)
            c.stmt(f["body"], frozenset())
            for i in f.get("inits", []) or []:
                self.init_effects(c, i)
            cur = (frozenset(c.eff), frozenset(c.ret))
            changed = cur != prev
            again = self.dirty
            self.dirty = rec or (self.dirty and not top)
            prev = cur
            if not changed or not again: break
        self.stack.discard(key)
        if self.dirty and not top: self.memo.pop(key, None)      # provisional: depends on an unfinished recursion
        else: self.memo[key] = prev
        if top: self.dirty = False
        return prev
    def init_effects(self, c, i):
        if i.get("e") is not None: c.expr(i["e"], frozenset())
        elif i.get("init") is not None: c.expr(i["init"], frozenset())
        m = i.get("f") or i.get("n")
        if m: c.emit({("this", m if isinstance(m, str) else "")}, "W", frozenset(), i.get("l"))

class Ctx:
    def __init__(self, E, f):
        self.E = E; self.P = E.P; self.f = f
        self.eff = set(); self.ret = set()
        self.alias = {}
        self.params = {p["id"]: (k, p) for k, p in enumerate(f.get("params", []))}
        self.decls = {}
        self.castaway = bool(self.f.get("constcast"))
    def constp(self, k):
        ps = self.f.get("params", [])
        if k >= len(ps): return False
        y = self.P.types[ps[k]["t"]]
        return y.get("k") in ("ref", "ptr") and bool(self.P.types[y["to"]].get("const"))
    # ---- names
    def site(self, l): return (self.f["file"], l or self.f["line"], self.f["q"])
    def emit(self, roots, rw, locks, l):
        for r, m in roots:
            if rw == "W" and isinstance(r, tuple) and r[0] == "p" and self.constp(r[1]) and m not in self.E.mutables and not self.castaway: continue
            if rw == "W" and r == "this" and self.f.get("constm") and m not in self.E.mutables and not self.castaway: continue
            self.eff.add((r, m, rw, locks, self.site(l)))
    def aliases(self):
        self.decls = {}
        pend = []
        def walk(o):
            if isinstance(o, dict):
                if o.get("k") == "decl":
                    for v in o["a"]:
                        if isinstance(v, dict) and v.get("id"):
                            self.decls[v["id"]] = v
                            if v.get("init") is not None: pend.append((v["id"], v["t"], v["init"], v))
                            for b in v.get("bind") or []:
                                if isinstance(b, dict) and b.get("id"):
                                    self.decls[b["id"]] = v
                                    if v.get("init") is not None: pend.append((b["id"], v["t"], v["init"], b))
                if o.get("k") == "rfor":
                    v = o["var"]; self.decls[v["id"]] = v
                    pend.append((v["id"], v["t"], o["range"], v))
                    for b in v.get("bind") or []:
                        if isinstance(b, dict) and b.get("id"):
                            self.decls[b["id"]] = v; pend.append((b["id"], v["t"], o["range"], b))
                if o.get("k") == "lambda":
                    for c in o.get("caps") or []:
                        pass
                if o.get("k") == "assign" and o["a"].get("k") == "ref" and self.E.reflike(o["a"].get("t")): pend.append((o["a"]["id"], o["a"]["t"], o["b"], None))
                for x in o.values(): walk(x)
            elif isinstance(o, list):
                for x in o: walk(x)
        walk(self.f["body"])
        for rnd in range(5):
            ch = False
            for id_, t, init, v in pend:
                if not self.E.reflike(t): continue
                r = self.roots(init)
                if not r <= self.alias.get(id_, set()): self.alias.setdefault(id_, set()).update(r); ch = True
            if not ch: break
    def roots(self, e):
        """storage an expression may denote (or point to)"""
        if not isinstance(e, dict): return set()
        k = e.get("k")
        if k == "ref":
            i = e["id"]
            if i.startswith("G:"): return {(("g", i), "")}
            if i in self.params:
                n, p = self.params[i]
                return {(("p", n), "")} if self.E.reflike(p["t"]) else {(("l", i), "")}
            if i in self.alias: return set(self.alias[i])
            v = self.decls.get(i)
            if v is not None and v.get("static"): return {(("g", "S:" + i), "")}
            return {(("l", i), "")}
        if k == "this": return {("this", "")}
        if k == "member": return {(r, m or e["f"]) for r, m in self.roots(e["b"])}
        if k == "sub": return self.roots(e["a"])
        if k in ("cast", "un"): return self.roots(e["a"])
        if k == "cond": return self.roots(e["a"]) | self.roots(e["b"])
        if k == "assign": return self.roots(e["a"])
        if k == "bin" and self.E.reflike(e.get("t")): return self.roots(e["a"]) | self.roots(e["b"])
        if k in ("mcall", "call"):
            f = self.P.functions.get(e.get("f") or "")
            lam = self.E.lambdas.get(e.get("f"))
            if f and "body" in f and f.get("repo") and not lam:
                ret = self.E.compute(f)[1]
                return self.map(ret, e, f)
            rt = e.get("t")
            n = f["n"] if f else ""
            if k == "mcall":
                if self.E.reflike(rt) or e.get("op") in ("[]", "*", "->", "()") or n in ACCESS or n in ("operator=", "operator+=", "operator-=", "operator*=", "operator/=", "operator<<", "insert", "erase", "emplace_back", "append"): return self.roots(e.get("o"))
                return set()
            if self.E.reflike(rt) or n in ("move", "forward", "get", "ref", "as_const", "tie", "min", "max"):
                r = set()
                for a in e.get("a") or []: r |= self.roots(a)
                return r
            return set()
        if k in ("ctor", "ilist"):
            if "ostream_iterator" in self.E.tname(e.get("t")): return self.roots((e.get("a") or [None])[0])
            if self.E.reflike(e.get("t")):
                r = set()
                for a in e.get("a") or []: r |= self.roots(a)
                return r
            return set()
        return set()
    def map(self, roots, e, f):
        """storage named by the callee in the caller's terms"""
        out = set()
        args = e.get("a") or []
        for x in roots:
            r, m = x
            if r == "this":
                for q, mm in (self.roots(e["o"]) if e.get("o") is not None else set()): out.add((q, mm or m))
            elif isinstance(r, tuple) and r[0] == "p":
                if r[1] < len(args):
                    for q, mm in self.roots(args[r[1]]): out.add((q, mm or m))
            elif isinstance(r, tuple) and r[0] == "g": out.add((r, m))
            elif isinstance(r, tuple) and r[0] == "l": pass
        return out
    # ---- statements
    def stmt(self, s, locks):
        if s is None: return
        if isinstance(s, list):
            for x in s: self.stmt(x, locks)
            return
        k = s.get("k")
        if k == "block":
            cur = locks
            for x in s["a"]:
                self.stmt(x, cur)
                cur = self.locked(x, cur)
            return
        if k == "decl":
            for v in s["a"]:
                if not isinstance(v, dict): continue
                if v.get("init") is not None:
                    if v.get("static"):
                        # initialised once, under the guard the language provides
                        self.expr(v["init"], locks | {("once", v["id"])})
                    else: self.expr(v["init"], locks)
                    if self.E.isref(v["t"]): pass
            return
        if k == "expr": self.expr(s["e"], locks); return
        if k == "ret":
            if s.get("e") is not None:
                self.expr(s["e"], locks)
                if self.E.reflike(self.f.get("ret", -1)): self.ret |= self.roots(s["e"])
            return
        if k == "rfor":
            self.expr(s["range"], locks); 
            r = self.roots(s["range"])
            self.emit(r, "R", locks, s.get("l"))
            self.stmt(s["body"], locks); return
        if k in ("if", "for", "while", "do", "switch", "case", "default", "try"):
            for key in ("init", "c", "inc", "a", "b", "body", "h", "e", "v"):
                x = s.get(key)
                for y in (x if isinstance(x, list) else [x]):
                    if isinstance(y, dict):
                        if y.get("k") in ("block", "decl", "expr", "ret", "rfor", "if", "for", "while", "do", "switch", "case", "default", "try", "continue", "break", "nop"): self.stmt(y, locks)
                        elif "k" in y: self.expr(y, locks)
                        else:
                            for z in y.values():
                                if isinstance(z, dict): self.stmt(z, locks)
            return
        if k in ("continue", "break", "nop"): return
        self.expr(s, locks)
    def locked(self, s, cur):
        if s.get("k") == "decl":
            for v in s["a"]:
                if isinstance(v, dict) and any(x in self.E.tname(v.get("t")) for x in ("lock_guard", "scoped_lock", "unique_lock", "shared_lock")):
                    i = v.get("init") or {}
                    for a in i.get("a") or []:
                        for r, m in self.roots(a):
                            if r == "this" or r[0] in ("g", "p"): cur = cur | {(r, m)}
        if s.get("k") == "expr" and s["e"].get("k") == "mcall":
            f = self.P.functions.get(s["e"].get("f") or "")
            if f and "mutex" in f["q"] and f["n"] in ("lock", "unlock"):
                for r, m in self.roots(s["e"]["o"]):
                    if r == "this" or r[0] in ("g", "p"): cur = cur | {(r, m)} if f["n"] == "lock" else cur - {(r, m)}
        return cur
    # ---- expressions
    def expr(self, e, locks):
        if isinstance(e, list):
            for x in e: self.expr(x, locks)
            return
        if not isinstance(e, dict): return
        k = e.get("k"); l = e.get("l")
        if k in ("ref", "this"):
            if k == "ref": self.emit(self.roots(e), "R", locks, l)
            return
        if k == "member":
            self.emit(self.roots(e), "R", locks, l)
            b = e["b"]
            if b.get("k") not in ("this", "ref", "member"): self.expr(b, locks)
            return
        if k == "assign":
            if self.E.reflike(e["a"].get("t")) and e["a"].get("k") == "ref" and not self.E.isref(self.declt(e["a"])): pass    # re-seating a pointer or iterator
            else: self.write(e["a"], locks, l)
            if e.get("op") not in ("=", None): self.emit(self.roots(e["a"]), "R", locks, l)
            self.sub(e["a"], locks); self.expr(e["b"], locks); return
        if k == "un" and e.get("op") in ("++", "--"):
            if not (self.E.reflike(e["a"].get("t")) and e["a"].get("k") == "ref"): self.write(e["a"], locks, l)
            self.sub(e["a"], locks); return
        if k == "lambda":
            if e.get("body"): self.stmt(e["body"], locks)
            for x in e.get("inst") or []:
                g = self.P.functions.get(x) if isinstance(x, str) else x
                if isinstance(g, dict) and g.get("body"): self.stmt(g["body"], locks)
            return
        if k in ("mcall", "call", "ctor"):
            f = self.P.functions.get(e.get("f") or "")
            args = e.get("a") or []
            lam = self.E.lambdas.get(e.get("f"))
            if e.get("o") is not None: self.expr(e["o"], locks)
            for a in args: self.expr(a, locks)
            if f and f.get("repo") and not lam:
                if "body" in f:
                    for (r, m, rw, lk, st) in self.E.compute(f)[0]:
                        if isinstance(r, tuple) and r[0] == "l": continue
                        mp = self.map({(r, m)}, e, f)
                        lk2 = frozenset(x for y in lk for x in (self.map({y}, e, f) if y[0] != "once" else {y})) | locks
                        for q, mm in mp: self.eff.add((q, mm, rw, lk2, st))
                elif f.get("op") == "=" or f["n"] == "operator=": self.write(e.get("o"), locks, l)
                return
            n = f["n"] if f else ""
            if k == "mcall" and not lam:
                o = e.get("o")
                ot = self.E.kind(o.get("t")) if isinstance(o, dict) else ("",)
                name = n or ("operator" + e["op"] if e.get("op") else "")
                wr = not (f or {}).get("constm", False)
                if wr and name in ACCESS and not (name == "operator[]" and ot and ot[0] == "map"): wr = False
                if "mutex" in self.E.tname(o.get("t") if isinstance(o, dict) else -1) or "atomic" in self.E.tname(o.get("t") if isinstance(o, dict) else -1): wr = False
                if ot and ot[0] in ("iter",) and name in ("operator++", "operator--", "operator+=", "operator-=", "operator="): wr = False
                if wr: self.write(o, locks, l)
            ro = n in READONLY or not f
            pts = [p["t"] for p in f["params"]] if f and "params" in f else (f or {}).get("ptypes", [])
            for j, a in enumerate(args):
                if not isinstance(a, dict): continue
                if ro: continue
                if n in OUTPUT and j < len(args) - 1 and n not in ("back_inserter", "inserter"): 
                    if not (n in ("copy", "copy_if", "transform") and j >= 2): continue
                t = pts[j] if j < len(pts) else a.get("t")
                if t is None or t < 0: continue
                if self.E.isref(t):
                    if not self.E.refconst(t) and self.P.types[t].get("k") != "rref": self.write(a, locks, l)
                    elif self.P.types[t].get("k") == "rref" and a.get("k") in ("ref", "member") and False: self.write(a, locks, l)
                elif self.E.kind(t)[0] == "iter" and "const" not in self.E.tname(a.get("t")): self.write(a, locks, l)
            if n == "move":
                pass
            return
        for v in e.values():
            if isinstance(v, (dict, list)): self.expr(v, locks)
    def declt(self, e):
        i = e.get("id")
        if i in self.params: return self.params[i][1]["t"]
        v = self.decls.get(i)
        return v["t"] if v else e.get("t")
    def sub(self, e, locks):
        """evaluate the operands of an lvalue"""
        if not isinstance(e, dict): return
        if e.get("k") == "member": self.sub(e["b"], locks)
        elif e.get("k") == "sub": self.sub(e["a"], locks); self.expr(e["b"], locks)
        elif e.get("k") in ("cast", "un"): self.sub(e["a"], locks)
        elif e.get("k") in ("mcall", "call"): self.expr(e, locks)
    def write(self, e, locks, l):
        if e is None: return
        if "atomic" in self.E.tname(e.get("t")) or "mutex" in self.E.tname(e.get("t")) or self.E.kind(e.get("t"))[0] == "lambda": return
        self.emit(self.roots(e), "W", locks, l)

"""Models of the standard library functions the analysed program calls."""
from exprs import *
import re

class FlowLib(Flow):
    # ------------------------------------------------------------ helpers
    def src(self, a, b, env):
        """the sequence between two iterators as (location, first position, last position, reversed?)"""
        if isinstance(a, Ref): a = self.load(a, env)
        if isinstance(b, Ref): b = self.load(b, env)
        if isinstance(a, Iter) and a.map and a.pos is ZERO and isinstance(b, KIter) and b.end and a.ref == b.ref:
            # all entries of a map, in order
            ent = note_seq(entries(self.load(a.ref, env)), "s"); return a, ent, ent, None
        if not (isinstance(a, Iter) and isinstance(b, Iter)): raise Unsupported("algorithm on something else than iterators")
        if a.map or b.map: raise Unsupported("algorithm on map entries")
        if a.ref != b.ref or a.rev != b.rev: raise Unsupported("iterators of different containers")
        s = self.load(a.ref, env)
        if a.rev: s = rev(s)
        et = self.Ty.elem(a.ref.t)
        return a, s, note_like(slc(s, a.pos, b.pos), s), et
    def replace_range(self, a, b, new, env):
        s = self.load(a.ref, env)
        if a.rev: s = rev(s)
        r = cat(slc(s, ZERO, a.pos), new, slc(s, b.pos, length(s)))
        if a.rev: r = rev(r)
        es = self.Ty.sort(self.Ty.elem(a.ref.t))
        self.store(a.ref, note_seq(r, es), env)
    def index(self, n, hint="i"):
        v = fresh("n", hint); va = single_atom(v); set_bounds(va, ZERO, psub(n, ONE))
        return v, va
    def elem_at(self, s, i, et):
        if et is None: return at(s, i, "s")
        so = self.Ty.sort(et)
        return self.typed(at(s, i, so), et)
    def pure(self, lam, args, env):
        """value of a call which may not change anything"""
        e2 = env.copy(); e2.log = set()
        keys = set(e2.d)
        r = self.call_value_obj(lam, args, e2)
        for k in keys:
            if k in ("#exc",) or k.startswith("tmp#"): continue
            if e2.d.get(k) is not env.d.get(k): raise Unsupported("predicate with side effects")
        if e2.d.get("#exc", ZERO) is not ZERO and e2.d.get("#exc") is not env.d.get("#exc", ZERO): raise Unsupported("predicate may throw")
        for k in e2.d:
            if k not in keys: env.d[k] = e2.d[k]
        r = self.val(r, e2)
        if not isinstance(r, T): raise Unsupported("predicate result")
        return r
    def call_value_obj(self, lam, args, env):
        if isinstance(lam, Ref): lam = self.load(lam, env)
        if isinstance(lam, FnObj):
            x, y = [self.val(z, env) for z in args]
            if ispoly(x) and ispoly(y): return {"less": lt(x, y), "greater": lt(y, x), "plus": padd(x, y), "multiplies": pmul(x, y)}[lam.name]
            raise Unsupported("std::%s of objects" % lam.name)
        if isinstance(lam, T): raise Unsupported("opaque function object")
        return self.call_lam(lam, args, env)
    def less(self, t, a, b, env):
        i = self.Ty.info(t)
        if i[0] == "rec": return self.user_cmp("operator<", i, a, b, env, LT)
        if i[0] in ("pair", "tuple"):
            r = ZERO
            for ct, x, y in reversed(self.components(t, a, b)):
                l, g = self.less(ct, x, y, env), self.less(ct, y, x, env)
                r = por(l, pmul(pnot(g), r))
            return r
        if i[0] == "rational": return self.fcompare("<", a, b)
        return LT(a, b)
    def byname(self, n):
        if not hasattr(self, "_byn"):
            self._byn = {}
            for f in self.P.functions.values():
                if f.get("repo"): self._byn.setdefault(f["n"], []).append(f)
        return self._byn.get(n, [])
    def foreach(self, a, b, fn, env):
        """fn(env, element location) for every element; returns the outcomes"""
        if isinstance(a, Iter) and a.map and a.pos is ZERO and isinstance(b, KIter) and b.end and a.ref == b.ref:
            i = self.Ty.info(a.ref.t); ent = note_seq(entries(self.load(a.ref, env)), "s"); n = length(ent)
            def body(e):
                fn(e, MElem(a.ref, self.typed(field(at(ent, self.e_pos(e), "s"), "first", self.Ty.sort(i[1])), i[1])))
                return self.after(e)
            return self.foreach_done(self.count_loop(n, body, env, None), env)
        et = self.Ty.elem(a.ref.t); es = self.Ty.sort(et)
        n = psub(b.pos, a.pos)
        def body(e):
            pos = padd(a.pos, self.e_pos(e))
            if a.rev: pos = psub(psub(length(self.load(a.ref, e)), ONE), pos)
            fn(e, Ref(a.ref.root, a.ref.path + (("i", pos, es, et),), et))
            return self.after(e)
        self.foreach_done(self.count_loop(n, body, env, None), env)
    def foreach_done(self, o, env):
        if "t" in o:
            if "n" in o:
                env.d = self.merge_env(o["n"][0], o["n"][1], env).d
            self.raise_(env, o["t"][0])
            return
        env.d = o["n"][1].d
    def l_cast(self, a, e, env):
        """pybind11::cast<T>(object)"""
        x = self.rv(a[0], env)
        if not isinstance(x, T): raise Unsupported("cast of an object")
        return self.typed(app("pycast<%s>" % self.Ty.canon(self.Ty.cname(e["t"])), (x,), self.Ty.sort(e["t"])), e["t"])
    def string(self, v, t=None):
        if isinstance(v, T) and ispoly(v): return el(v)
        return v
    def tostr(self, x):
        c = constval(x)
        if isinstance(c, int): return strlit(str(c))
        cs = liftable(x)
        if cs: return split(frozenset(cs), x, self.tostr)
        return note_seq(app("to_string", (x,), "s"), "n")
    def findpos(self, pred_at, n, base):
        """position of the first i < n with pred, or n"""
        i, ia = self.index(n)
        c = pred_at(i)
        A = bind("any", n, ia, c)
        if A is ZERO: return n, A
        F = bind("first", n, ia, c)
        a = single_atom(F)
        if a is not None: set_bounds(a, ZERO, psub(n, ONE))
        return ite(A, F, n), A

    # ------------------------------------------------------------ dispatch
    def library(self, f, q, e, env):
        n = f["n"]
        if n.startswith("operator"):
            return self.lib_operator(n[8:].strip(), e, env)
        m = getattr(self, "l_" + n, None)
        if m is None: raise Unsupported("library function " + q)
        return m(e["a"], e, env)
    def lib_operator(self, op, e, env):
        c = e["a"][0]
        while c.get("k") in ("paren", "cast", "bindtemp", "exprwc") and "a" in c: c = c["a"]
        if op in COMPARE and len(e["a"]) == 2 and c.get("k") == "call" and c.get("op") == "<=>" and len(c["a"]) == 2:
            t0 = c["a"][0].get("t", -1)
            if self.Ty.info(t0)[0] in ("pair", "tuple"):
                x, y = [self.val(self.ev(z, env), env) for z in c["a"]]
                if isinstance(x, T) and isinstance(y, T): return self.compare(op, t0, x, y, env)
        a = [self.ev(x, env) for x in e["a"]]
        t0 = e["a"][0].get("t", -1)
        if len(a) == 1:
            x = self.val(a[0], env)
            if op == "-": return pneg(x)
            if op == "+": return x
            if op == "~": return psub(pneg(x), ONE)
            raise Unsupported("operator " + op)
        if len(a) == 2 and "_ordering" in self.Ty.cname(t0):
            x = self.val(a[0], env)
            return COMPARE[op](x, ZERO)
        if len(a) == 2 and "_ordering" in self.Ty.cname(e["a"][1].get("t", -1)): return COMPARE[op](ZERO, self.val(a[1], env))
        x, y = self.val(a[0], env), self.val(a[1], env)
        i = self.Ty.info(e["t"])
        if op == "+" and i[0] == "seq":
            return note_seq(cat(self.string(x), self.string(y)), "n")
        if i[0] == "stream": 
            if isinstance(x, Stream): return x
            raise Unsupported("stream")
        if op in COMPARE and isinstance(x, T) and isinstance(y, T) and not ispoly(x):
            if op in ("==", "!=") or self.Ty.info(t0)[0] in ("pair", "tuple"): return self.compare(op, t0, x, y, env)
        if op == "<=>": return CMP(x, y)
        return self.binop(op, x, y, e["t"], t0, env)
    def compare(self, op, t, x, y, env):
        if op in ("==", "!="):
            r = self.equal(t, x, y, env)
            return r if op == "==" else pnot(r)
        if op in ("<", ">="): r = self.less(t, x, y, env)
        else: r = self.less(t, y, x, env)
        return r if op in ("<", ">") else pnot(r)
    def components(self, t, x, y):
        i = self.Ty.info(t)
        names = ("first", "second") if i[0] == "pair" else [str(k) for k in range(len(i) - 1)]
        return [(ct, field(x, n, self.Ty.sort(ct)), field(y, n, self.Ty.sort(ct))) for n, ct in zip(names, i[1:])]
    def equal(self, t, x, y, env):
        i = self.Ty.info(t)
        if i[0] in ("pair", "tuple") and isinstance(x, T) and isinstance(y, T):
            r = ONE
            for ct, a, b in self.components(t, x, y): r = pmul(r, self.equal(ct, a, b, env))
            return r
        if i[0] == "rec": return self.user_cmp("operator==", i, x, y, env, EQ)
        if i[0] == "rational": return self.fcompare("==", x, y)
        if i[0] == "map" and isinstance(x, T) and isinstance(y, T) and not (x.op == "mempty" or y.op == "mempty") and x is not y: return self.same_entries(i, x, y, env)
        return EQ(x, y)
    def same_entries(self, i, x, y, env):
        n = length(entries(x)); k, ka = self.index(n)
        return pmul(eqi(n, length(entries(y))), pnot(bind("any", n, ka, pnot(EQ(at(entries(x), k, "s"), at(entries(y), k, "s"))))))
    def user_cmp(self, op, i, a, b, env, other):
        for f in self.byname(op):
            ps = ([f["clst"]] if f.get("method") else []) + [p["t"] for p in f["params"]]
            if len(ps) == 2 and all(self.Ty.canon(self.Ty.cname(p)) == i[1] for p in ps):
                return self.val(self.call_fn(f, a if f.get("method") else None, [b] if f.get("method") else [a, b], env, None), env)
        return other(a, b)

    # ------------------------------------------------------------ algorithms
    def l_accumulate(self, a, e, env):
        it, jt = self.rv(a[0], env), self.rv(a[1], env)
        init = self.rv(a[2], env); lam = self.ev(a[3], env) if len(a) > 3 else None
        acc = self.temp(init, a[2].get("t"), env)
        # a plain variable so that it is found by the loop analysis
        root = "acc#%d" % self.ntmp; env.d[root] = init; env.ty[root] = a[2].get("t"); acc = Ref(root, (), a[2].get("t"))
        def fn(ev, x):
            if lam is None: v = padd(self.load(acc, ev), self.load(x, ev))
            else: v = self.val(self.call_value_obj(lam, [self.load(acc, ev), x], ev), ev)
            self.store(acc, v, ev)
        self.foreach(it, jt, fn, env)
        return env.d.pop(root)
    def l_for_each(self, a, e, env):
        it, jt = self.rv(a[0], env), self.rv(a[1], env); lam = self.ev(a[2], env)
        self.foreach(it, jt, lambda ev, x: self.call_value_obj(lam, [x], ev), env)
        return lam
    def l_transform(self, a, e, env):
        it, jt = self.rv(a[0], env), self.rv(a[1], env); out = self.ev(a[2], env); lam = self.ev(a[3], env)
        it, s, sub, et = self.src(it, jt, env)
        n = length(sub)
        i, ia = self.index(n)
        x = self.pure(lam, [self.elem_at(sub, i, et)], env)
        new = bind("cmap", n, ia, el(x))
        return self.emit(out, new, env)
    def emit(self, out, new, env):
        if isinstance(out, Ref): out = self.val(out, env)
        if isinstance(out, BackIns):
            s = self.load(out.ref, env)
            self.store(out.ref, note_seq(cat(s, new), self.Ty.sort(self.Ty.elem(out.ref.t))), env); return out
        if isinstance(out, Iter):
            end = Iter(out.ref, padd(out.pos, length(new)), out.rev)
            self.replace_range(out, end, new, env); return end
        raise Unsupported("output iterator")
    def l_copy(self, a, e, env):
        it, jt = self.rv(a[0], env), self.rv(a[1], env)
        out = self.ev(a[2], env)
        it, s, sub, et = self.src(it, jt, env)
        if isinstance(out, OutIter):
            n = length(sub); i, ia = self.index(n); x = self.elem_at(sub, i, et)
            if ispoly(x): x = self.tostr(x)
            self.append(out.ref, bind("cmap", n, ia, cat(x, out.sep)), env); return out
        return self.emit(out, sub, env)
    def l_move(self, a, e, env):
        if len(a) == 1: return self.ev(a[0], env)
        return self.l_copy(a, e, env)
    def l_forward(self, a, e, env): return self.ev(a[0], env)
    def l_as_const(self, a, e, env): return self.ev(a[0], env)
    def l_copy_if(self, a, e, env):
        it, jt = self.rv(a[0], env), self.rv(a[1], env); out = self.ev(a[2], env); lam = self.ev(a[3], env)
        it, s, sub, et = self.src(it, jt, env)
        n = length(sub); i, ia = self.index(n)
        x = self.elem_at(sub, i, et)
        c = self.pure(lam, [x], env)
        return self.emit(out, note_seq(bind("cmap", n, ia, ite(c, el(x), EMPTY)), self.Ty.sort(et)), env)
    def l_back_inserter(self, a, e, env):
        r = self.ev(a[0], env)
        if not isinstance(r, Ref): raise Unsupported("back_inserter")
        if r.t is None or self.Ty.info(r.t)[0] != "seq": r = Ref(r.root, r.path, a[0].get("t"))
        return BackIns(r)
    def l_begin(self, a, e, env): return self.m_any(a[0], "begin", e, env)
    def l_end(self, a, e, env): return self.m_any(a[0], "end", e, env)
    def l_cbegin(self, a, e, env): return self.m_any(a[0], "begin", e, env)
    def l_cend(self, a, e, env): return self.m_any(a[0], "end", e, env)
    def l_rbegin(self, a, e, env): return self.m_any(a[0], "rbegin", e, env)
    def l_rend(self, a, e, env): return self.m_any(a[0], "rend", e, env)
    def l_size(self, a, e, env): return self.m_any(a[0], "size", e, env)
    def l_empty(self, a, e, env): return self.m_any(a[0], "empty", e, env)
    def m_any(self, x, n, e, env):
        o = self.ev(x, env); t = x.get("t"); k = self.Ty.info(t)[0]
        fe = {"a": [], "t": e["t"]}
        if k == "seq": return self.m_seq(n, o, fe, t, env)
        if k == "map": return self.m_map(n, o, fe, t, env)
        raise Unsupported("std::" + n)
    def l_distance(self, a, e, env):
        return self.iterop("-", self.rv(a[1], env), self.rv(a[0], env), env)
    def l_next(self, a, e, env): return self.iterop("+", self.rv(a[0], env), self.rv(a[1], env) if len(a) > 1 else ONE, env)
    def l_prev(self, a, e, env): return self.iterop("-", self.rv(a[0], env), self.rv(a[1], env) if len(a) > 1 else ONE, env)
    def l_advance(self, a, e, env):
        r = self.ev(a[0], env); self.store(r, self.iterop("+", self.load(r, env), self.rv(a[1], env), env), env)
    def iter_result(self, it, pos): return Iter(it.ref, padd(it.pos, pos), it.rev)
    def l_adjacent_find(self, a, e, env):
        it, s, sub, et = self.src(self.rv(a[0], env), self.rv(a[1], env), env)
        lam = self.ev(a[2], env) if len(a) > 2 else None
        n = length(sub)
        def pred(i):
            x, y = self.elem_at(sub, i, et), self.elem_at(sub, padd(i, ONE), et)
            return self.pure(lam, [x, y], env) if lam is not None else self.equal(et, x, y, env)
        m = psub(n, ONE)
        i, ia = self.index(m)
        c = pred(i)
        A = bind("any", m, ia, c); F = bind("first", m, ia, c)
        fa = single_atom(F)
        if fa is not None: set_bounds(fa, ZERO, psub(m, ONE))
        return self.iter_result(it, ite(A, F, n))
    def l_find(self, a, e, env):
        it, s, sub, et = self.src(self.rv(a[0], env), self.rv(a[1], env), env)
        v = self.rv(a[2], env)
        p, A = self.findpos(lambda i: self.equal(et, self.elem_at(sub, i, et), v, env), length(sub), it)
        return self.iter_result(it, p)
    def l_find_if(self, a, e, env):
        it, s, sub, et = self.src(self.rv(a[0], env), self.rv(a[1], env), env)
        lam = self.ev(a[2], env)
        p, A = self.findpos(lambda i: self.pure(lam, [self.elem_at(sub, i, et)], env), length(sub), it)
        return self.iter_result(it, p)
    def quant(self, a, env):
        it, s, sub, et = self.src(self.rv(a[0], env), self.rv(a[1], env), env)
        lam = self.ev(a[2], env); n = length(sub); i, ia = self.index(n)
        return n, ia, self.tobool(self.pure(lam, [self.elem_at(sub, i, et)], env))
    def l_any_of(self, a, e, env):
        n, ia, c = self.quant(a, env); return bind("any", n, ia, c)
    def l_all_of(self, a, e, env):
        n, ia, c = self.quant(a, env); return pnot(bind("any", n, ia, pnot(c)))
    def l_none_of(self, a, e, env):
        n, ia, c = self.quant(a, env); return pnot(bind("any", n, ia, c))
    def l_count_if(self, a, e, env):
        n, ia, c = self.quant(a, env); return bind("sum", n, ia, c)
    def l_count(self, a, e, env):
        it, s, sub, et = self.src(self.rv(a[0], env), self.rv(a[1], env), env)
        v = self.rv(a[2], env); n = length(sub); i, ia = self.index(n)
        return bind("sum", n, ia, self.equal(et, self.elem_at(sub, i, et), v, env))
    def l_equal(self, a, e, env):
        x, y = self.rv(a[0], env), self.rv(a[1], env); z = self.rv(a[2], env)
        if isinstance(x, Iter) and x.map:
            m1 = self.load(x.ref, env); m2 = self.load(z.ref, env)
            n = length(entries(m1)); i, ia = self.index(n)
            return pnot(bind("any", n, ia, pnot(EQ(at(entries(m1), i, "s"), at(entries(m2), i, "s")))))
        it, s, sub, et = self.src(x, y, env)
        n = length(sub); i, ia = self.index(n)
        w = self.load(z.ref, env)
        return pnot(bind("any", n, ia, pnot(self.equal(et, self.elem_at(sub, i, et), self.elem_at(w, padd(z.pos, i), et), env))))
    def l_fill(self, a, e, env):
        it, jt = self.rv(a[0], env), self.rv(a[1], env)
        self.replace_range(it, jt, self.rep(psub(jt.pos, it.pos), self.rv(a[2], env)), env)
    def l_iota(self, a, e, env):
        it, jt = self.rv(a[0], env), self.rv(a[1], env); v = self.rv(a[2], env)
        n = psub(jt.pos, it.pos); i, ia = self.index(n)
        self.replace_range(it, jt, bind("cmap", n, ia, el(padd(v, i))), env)
    def l_reverse(self, a, e, env):
        it, jt = self.rv(a[0], env), self.rv(a[1], env)
        it, s, sub, et = self.src(it, jt, env)
        self.replace_range(it, jt, rev(sub), env)
    def l_sort(self, a, e, env):
        it, jt = self.rv(a[0], env), self.rv(a[1], env)
        it, s, sub, et = self.src(it, jt, env)
        self.replace_range(it, jt, self.sorted(sub, et, self.ev(a[2], env) if len(a) > 2 else None, env), env)
    l_stable_sort = l_sort
    def total(self, t):
        i = self.Ty.info(t)
        if i[0] in ("pair", "tuple"): return all(self.total(x) for x in i[1:])
        return i[0] in ("int", "bool", "enum") or i[0] == "seq" and self.total(i[1])
    def sorted(self, s, et, lam, env):
        if s is EMPTY or s.op == "el": return s
        if isinstance(lam, FnObj) and lam.name == "greater":
            if self.total(et): return rev(self.sorted(s, et, None, env))
            x, y = self.symfresh(et), self.symfresh(et)
            c = self.less(et, y, x, env)
        else: x, y = self.symfresh(et), self.symfresh(et); c = None
        if lam is None and self.total(et):
            # equal elements cannot be told apart: the order before does not matter
            s2 = rev(s)
            if s2.size < s.size or s2.size == s.size and s2.dig < s.dig: s = s2
        if c is not None: pass
        elif lam is None or isinstance(lam, FnObj) and lam.name == "less": c = self.less(et, x, y, env)
        else: c = self.pure(lam, [x, y], env)
        ats = [single_atom(v) if ispoly(v) else v for v in (x, y)]
        L = mkmulti("lam", ats, [q.args[1] for q in ats], (), c, ("s",))
        return note_seq(mksort(s, L), self.Ty.sort(et))
    def l_is_sorted(self, a, e, env):
        it, s, sub, et = self.src(self.rv(a[0], env), self.rv(a[1], env), env)
        lam = self.ev(a[2], env) if len(a) > 2 else None
        m = psub(length(sub), ONE); i, ia = self.index(m)
        x, y = self.elem_at(sub, padd(i, ONE), et), self.elem_at(sub, i, et)
        c = self.less(et, x, y, env) if lam is None else self.pure(lam, [x, y], env)
        return pnot(bind("any", m, ia, c))
    def l_unique(self, a, e, env):
        it, jt = self.rv(a[0], env), self.rv(a[1], env)
        it, s, sub, et = self.src(it, jt, env)
        u = note_seq(app("unique", (sub,), "s"), self.Ty.sort(et))
        self.replace_range(it, jt, cat(u, note_seq(app("rest", (sub,), "s"), self.Ty.sort(et))), env)
        return self.iter_result(it, length(u))
    def l_remove(self, a, e, env):
        it, jt = self.rv(a[0], env), self.rv(a[1], env); v = self.rv(a[2], env)
        et = self.Ty.elem(it.ref.t)
        return self.removed(it, jt, lambda x: self.equal(et, x, v, env), env)
    def l_remove_if(self, a, e, env):
        it, jt = self.rv(a[0], env), self.rv(a[1], env); lam = self.ev(a[2], env)
        return self.removed(it, jt, lambda x: self.pure(lam, [x], env), env)
    def removed(self, it, jt, pred, env):
        it, s, sub, et = self.src(it, jt, env)
        n = length(sub); i, ia = self.index(n); x = self.elem_at(sub, i, et)
        u = note_seq(bind("cmap", n, ia, ite(pred(x), EMPTY, el(x))), self.Ty.sort(et))
        self.replace_range(it, jt, cat(u, note_seq(app("rest", (sub, u), "s"), self.Ty.sort(et))), env)
        return self.iter_result(it, length(u))
    def l_set_intersection(self, a, e, env):
        i1, s1, A, et = self.src(self.rv(a[0], env), self.rv(a[1], env), env)
        i2, s2, B, et2 = self.src(self.rv(a[2], env), self.rv(a[3], env), env)
        return self.emit(self.ev(a[4], env), note_seq(app("set_intersection", (A, B), "s"), self.Ty.sort(et)), env)
    def l_max_element(self, a, e, env): return self.extreme("max", a, env)
    def l_min_element(self, a, e, env): return self.extreme("min", a, env)
    def extreme(self, n, a, env):
        it, s, sub, et = self.src(self.rv(a[0], env), self.rv(a[1], env), env)
        if len(a) > 2: raise Unsupported(n + "_element with comparator")
        return self.iter_result(it, app(n + "pos", (sub,), "n"))
    def l_swap(self, a, e, env):
        x, y = self.ev(a[0], env), self.ev(a[1], env)
        if not (isinstance(x, Ref) and isinstance(y, Ref)): raise Unsupported("swap")
        v, w = self.load(x, env), self.load(y, env)
        self.assign(x, w, env); self.assign(y, v, env)
    def l_iter_swap(self, a, e, env):
        x, y = self.deref(self.rv(a[0], env), env), self.deref(self.rv(a[1], env), env)
        v, w = self.load(x, env), self.load(y, env)
        self.assign(x, w, env); self.assign(y, v, env)
    def l_exchange(self, a, e, env):
        x = self.ev(a[0], env); v = self.rv(a[1], env); old = self.load(x, env); self.assign(x, v, env); return old

    # ------------------------------------------------------------ values
    def l_make_pair(self, a, e, env): return self.pair(e["t"], self.tval(self.rv(a[0], env)), self.tval(self.rv(a[1], env)))
    def l_make_tuple(self, a, e, env):
        i = self.Ty.info(e["t"])
        return self.mkrec(e["t"], [(str(n), ft, self.tval(self.rv(x, env))) for n, (ft, x) in enumerate(zip(i[1:], a))])
    def l_tie(self, a, e, env):
        refs = [self.ev(x, env) for x in a]
        return Tie(refs, e["t"])
    def l_get(self, a, e, env):
        f = self.P.functions[e["f"]]
        k = None
        for x in f.get("targs_v", []) or []: pass
        k = e.get("gi", f.get("gi"))
        if k is None:
            m = re.search(r"get<#V[a-z]+(\d+)#", f.get("key", ""))
            if m: k = int(m.group(1))
        if k is None: raise Unsupported("std::get")
        o = self.ev(a[0], env); t = a[0].get("t"); i = self.Ty.info(t)
        n = ("first", "second")[k] if i[0] == "pair" else str(k)
        ft = i[1 + k]
        if isinstance(o, Ref): return self.fref(Ref(o.root, o.path, t), n, ft, self.Ty.cname(t))
        return self.typed(field(self.val(o, env), n, self.Ty.sort(ft)), ft)
    def l_max(self, a, e, env): return self.minmax(True, a, env)
    def l_min(self, a, e, env): return self.minmax(False, a, env)
    def minmax(self, mx, a, env):
        x, y = self.rv(a[0], env), self.rv(a[1], env)
        if not (ispoly(x) and ispoly(y)):
            if len(a) != 2: raise Unsupported("min/max")
            t = a[0].get("t"); x, y = self.val(x, env), self.val(y, env)
            return ite(self.less(t, x, y, env), y, x) if mx else ite(self.less(t, y, x, env), y, x)
        return ite(lt(x, y), y, x) if mx else ite(lt(y, x), y, x)
    def l_abs(self, a, e, env):
        x = self.rv(a[0], env)
        t = a[0].get("t")
        if self.Ty.info(t)[0] in ("rational", "float"): return app("abs", (x,), self.Ty.sort(t))
        return ite(lt(x, ZERO), pneg(x), x)
    l_fabs = l_abs
    def l_gcd(self, a, e, env):
        """gcd does not see signs; numerator and denominator of one rational have no common factor"""
        def pos(p): return TM.pneg(p) if p.args[0] and max(p.args[0], key=lambda mc: (len(mc[0]), tuple(x.dig for x, _ in mc[0])))[1] < 0 else p
        def one(x, y):
            if not (ispoly(x) and ispoly(y)): return app("gcd", (x, y), "n")
            x, y = pos(x), pos(y); a, b = TM.single_atom(x), TM.single_atom(y)
            if a is not None and b is not None and a.op == "field" and b.op == "field" and a.args[0] is b.args[0] and {a.args[1], b.args[1]} == {"numerator_", "denominator_"}: return TM.ONE
            return app("gcd", (x, y), "n")
        xs = (self.rv(a[0], env), self.rv(a[1], env))
        cs = TM.liftable(xs)
        return TM.split(cs, xs, lambda z: one(*z)) if cs else one(*xs)
    def l_sqrt(self, a, e, env): return app("sqrt", (self.rv(a[0], env),), "f")
    def l_pow(self, a, e, env):
        x, y = self.rv(a[0], env), self.rv(a[1], env)
        if constval(x) == -1: return par(y)
        c = constval(y)
        if isinstance(c, int) and 0 <= c < 8: return ppow(x, c)
        return app("pow", (x, y), "n")
    def l_isspace(self, a, e, env): return app("isspace", (self.rv(a[0], env),), "b")
    def l_isdigit(self, a, e, env): return app("isdigit", (self.rv(a[0], env),), "b")
    def l_toupper(self, a, e, env): return app("toupper", (self.rv(a[0], env),), "n")
    def l_tolower(self, a, e, env): return app("tolower", (self.rv(a[0], env),), "n")
    def l_to_string(self, a, e, env):
        x = self.rv(a[0], env)
        if self.Ty.info(a[0].get("t"))[0] == "float": return note_seq(app("to_string_f", (x,), "s"), "n")
        return self.tostr(x)
    def l_lexical_cast(self, a, e, env):
        x = self.rv(a[0], env)
        if self.Ty.info(e["t"])[0] == "seq" and ispoly(x): return self.tostr(x)
        return self.typed(app("lexical_cast", (x,), self.Ty.sort(e["t"])), e["t"])
    def l_stoi(self, a, e, env): return app("parse_int", (self.rv(a[0], env),), "n")
    l_stol = l_stoll = l_stoi
    def l_stod(self, a, e, env): return app("parse_float", (self.rv(a[0], env),), "f")
    def l_format(self, a, e, env):
        fmt = self.find_str(a[0])
        if fmt is None: raise Unsupported("format string")
        out = []; k = 1; pos = 0
        for m in re.finditer(r"\{\{|\}\}|\{([^{}]*)\}", fmt):
            out.append(strlit(fmt[pos:m.start()])); pos = m.end()
            if m.group(0) in ("{{", "}}"): out.append(strlit(m.group(0)[0])); continue
            spec = m.group(1)
            x = self.rv(a[k], env); ti = self.Ty.info(a[k].get("t"))[0]; k += 1
            if spec: out.append(note_seq(app("format:" + spec, (x,), "s"), "n"))
            elif ti == "seq": out.append(x)
            elif ti == "int" and self.P.types[self.Ty.strip(a[k - 1]["t"])].get("char"): out.append(el(x))
            elif ti == "float": out.append(note_seq(app("to_string_g", (x,), "s"), "n"))
            elif ispoly(x): out.append(self.tostr(x))
            else: raise Unsupported("format argument")
        out.append(strlit(fmt[pos:]))
        return cat(*out)
    def find_str(self, x):
        if isinstance(x, dict):
            if x.get("k") == "str": return x["v"]
            for v in x.values():
                r = self.find_str(v)
                if r is not None: return r
        elif isinstance(x, list):
            for v in x:
                r = self.find_str(v)
                if r is not None: return r
        return None
    def l_regex_match(self, a, e, env): return self.regex_call("regex_match", a, env)
    def l_regex_search(self, a, e, env): return self.regex_call("regex_search", a, env)
    def regex_call(self, n, a, env):
        s = self.rv(a[0], env)
        i1 = self.Ty.info(a[1].get("t"))
        if not isinstance(s, T): raise Unsupported("regex on iterators")
        if "match_results" in i1[1]:
            re_ = self.rv(a[2], env); m = self.ev(a[1], env)
            self.store(m, app("match", (s, re_), "s"), env)
        else: re_ = self.rv(a[1], env)
        return app(n, (s, re_), "b")
    def l_regex_replace(self, a, e, env):
        return note_seq(app("regex_replace", tuple(self.rv(x, env) for x in a[:3]), "s"), "n")
    def l_async(self, a, e, env):
        k = 1 if self.Ty.info(a[0].get("t"))[0] == "enum" else 0
        lam = self.ev(a[k], env)
        v = self.call_value_obj(lam, [self.ev(x, env) for x in a[k + 1:]], env)
        if v is None: return ZERO
        return self.val(v, env)
    def l_getline(self, a, e, env):
        f, s = self.ev(a[0], env), self.ev(a[1], env)
        v = self.load(f, env)
        if not isinstance(v, T) or not isinstance(s, Ref): raise Unsupported("getline")
        x = (v, self.rv(a[2], env) if len(a) > 2 else const(10))
        self.store(s, note_seq(app("getline", x, "s"), "n"), env)
        self.store(f, note_seq(app("getline_rest", x, "s"), "n"), env)
        return app("getline_ok", (v,), "b")
    def l_setw(self, a, e, env): return Stream(None)
    def l_now(self, a, e, env): return sym("time", "n")
    def l_duration_cast(self, a, e, env): return sym("time", "n")
    def l_make_shared(self, a, e, env): raise Unsupported("make_shared")
    l_make_unique = l_make_shared

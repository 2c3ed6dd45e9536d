"""Whole-function value-flow analysis: turns a function of the resolved program into the normal form of its results
(return value, exception condition, final values of everything it may modify) as terms over its inputs.

All paths are merged (gated values), loops are summarised without unrolling (sums, products, element-wise maps,
appends, any/first, otherwise an explicit fold), calls are inlined or kept as uninterpreted operations."""
import re
from terms import *
import terms as TM

class Unsupported(Exception): pass

# ------------------------------------------------------------------ types
class Types:
    def __init__(self, P):
        self.P = P; self.memo = {}
        self.derived = {}
        bases = {}
        for r in P.records.values():
            for b in r["bases"]: bases.setdefault(self.cname(b), set()).add(self.cname(r["ts"]))
        self.recs = {self.cname(r["ts"]): r for r in P.records.values()}
        for b, ds in bases.items():
            if len(ds) == 1 and (b.startswith("Algebra<") or b.startswith("Product<")) and b in self.recs:
                d = next(iter(ds))
                if d in self.recs and not self.recs[d]["fields"]: self.derived[b] = d
        for k, e in P.enums.items():
            vals = [v["v"] for v in e["vals"]]
            if vals and min(vals) == 0: TM.ENUM_RANGE[k] = max(vals)
        for n, r in self.recs.items():
            fs = self.allfields(n)
            TM.REC_FIELDS[self.canon(n)] = tuple(f["n"] for f in fs if f["n"] not in TM.IGNORED)
    def allfields(self, n):
        r = self.recs.get(n)
        if not r: return []
        out = []
        for b in r["bases"]: out += self.allfields(self.cname(b))
        return out + r["fields"]
    def canon(self, n): return self.derived.get(n, n)
    def strip(self, t):
        T_ = self.P.types
        while t is not None and t >= 0 and T_[t].get("k") in ("ref", "rref"): t = T_[t]["to"]
        return t
    def cname(self, t):
        t = self.strip(t)
        if t is None or t < 0: return "?"
        s = self.P.types[t].get("s", "?")
        return s[6:] if s.startswith("const ") else s
    def isref(self, t): return t is not None and t >= 0 and self.P.types[t].get("k") in ("ref", "rref")
    def isrref(self, t): return t is not None and t >= 0 and self.P.types[t].get("k") == "rref"
    def isconst(self, t):
        t = self.strip(t)
        return bool(self.P.types[t].get("const"))
    def info(self, t):
        t0 = t; t = self.strip(t)
        if t in self.memo: return self.memo[t]
        r = self._info(t); self.memo[t] = r
        return r
    def _info(self, t):
        if t is None or t < 0: return ("void",)
        y = self.P.types[t]; k = y.get("k")
        s = self.cname(t)
        if k == "bool": return ("bool",)
        if k == "int": return ("int", not y.get("sg", True) and not y.get("char"))
        if k == "float": return ("float",)
        if k == "enum": return ("enum", y["n"])
        if k == "void": return ("void",)
        if k == "ptr": return ("ptr", y["to"])
        if k == "array": return ("seq", y["to"], y.get("size"))
        if k == "fn": return ("fn",)
        if k == "rec":
            n = y["n"]; a = y.get("args", [])
            if n == "rational": return ("rational",)
            if n == "boost::multiprecision::number": return ("int", False)
            if n in ("std::vector", "std::deque", "std::initializer_list", "std::list"): return ("seq", a[0], None)
            if n in ("std::basic_string", "std::__cxx11::basic_string", "std::basic_string_view"): return ("seq", a[0], None)
            if n == "std::array": return ("seq", a[0], a[1]["int"] if isinstance(a[1], dict) else None)
            if n in ("std::map", "std::unordered_map"): return ("map", a[0], a[1])
            if n in ("std::set", "std::unordered_set"): return ("set", a[0])
            if n == "std::pair": return ("pair", a[0], a[1])
            if n == "std::tuple": return ("tuple",) + tuple(a)
            if n in ("std::shared_ptr", "std::unique_ptr"): return ("sptr", a[0])
            if n == "std::function": return ("fn",)
            if n == "std::future": return ("future", a[0])
            if "iterator" in n or n.endswith("_Bit_iterator"): return ("iter",)
            if "regex" in n or "match_results" in n or "sub_match" in n: return ("regex", n)
            if n.endswith("basic_ostream") or n.endswith("stringstream"): return ("stream",)
            if n.startswith("std::chrono") or n in ("timer",): return ("time",)
            if "lock_guard" in n or n.endswith("mutex"): return ("lock",)
            if y.get("lambda"): return ("lambda",)
            if y.get("repo"): return ("rec", self.canon(s))
            if n in ("pybind11::args", "pybind11::list", "pybind11::tuple"):
                h = next((i for i, x in enumerate(self.P.types) if x.get("s") in ("pybind11::handle", "py::handle", "handle")), None)
                if h is not None: return ("seq", h, None)
            return ("lib", n)
        return ("other", k)
    def sort(self, t):
        i = self.info(t)
        if i[0] == "bool": return "b"
        if i[0] == "int": return "u" if i[1] else "n"
        if i[0] == "enum": return "e:" + i[1]
        if i[0] == "rational": return "q"
        if i[0] == "float": return "f"
        return "s"
    def elem(self, t):
        i = self.info(t)
        return i[1] if i[0] == "seq" else None

# ------------------------------------------------------------------ run-time objects of the analysis
class Ref:
    """a storage location: root variable and access path"""
    __slots__ = ("root", "path", "t")
    def __init__(self, root, path, t): self.root = root; self.path = path; self.t = t
    def __eq__(self, o): return isinstance(o, Ref) and self.root == o.root and self.path == o.path
    def __hash__(self): return hash((self.root, self.path))
    def __repr__(self): return "Ref(%s%s)" % (self.root, self.path)
class Ptr:
    __slots__ = ("ref",)
    def __init__(self, ref): self.ref = ref
    def __eq__(self, o): return isinstance(o, Ptr) and self.ref == o.ref
    def __hash__(self): return hash(self.ref)
class Either:
    """what stands behind a reference to one of two objects"""
    __slots__ = ("c", "a", "b")
    def __init__(self, c, a, b): self.c = c; self.a = a; self.b = b
class Iter:
    """iterator into a sequence (or into the entry list of a map)"""
    __slots__ = ("ref", "pos", "rev", "map")
    def __init__(self, ref, pos, rev=False, map=False): self.ref = ref; self.pos = pos; self.rev = rev; self.map = map
class KIter:
    """result of a map look-up by key"""
    __slots__ = ("ref", "key", "end", "pos")
    def __init__(self, ref, key, end=False, pos=None): self.ref = ref; self.key = key; self.end = end; self.pos = pos
class MElem:
    """an entry of a map, reached by its key"""
    __slots__ = ("ref", "key", "entry")
    def __init__(self, ref, key, entry=None): self.ref = ref; self.key = key; self.entry = entry
class Lam:
    __slots__ = ("node", "caps", "this")
    def __init__(self, node, caps, this): self.node = node; self.caps = caps; self.this = this
class FnRef:
    __slots__ = ("usr", "obj")
    def __init__(self, usr, obj=None): self.usr = usr; self.obj = obj
class Enum_:
    __slots__ = ("ref", "t")
    def __init__(self, ref, t): self.ref = ref; self.t = t
class Range_:
    __slots__ = ("lo", "hi")
    def __init__(self, lo, hi): self.lo = lo; self.hi = hi
class FnObj:
    """std::less, std::greater, std::plus, ..."""
    __slots__ = ("name",)
    def __init__(self, name): self.name = name
class Tie:
    """references tied together"""
    __slots__ = ("refs", "ty")
    def __init__(self, refs, ty): self.refs = refs; self.ty = ty
class BackIns:
    __slots__ = ("ref",)
    def __init__(self, ref): self.ref = ref
class Stream:
    __slots__ = ("ref",)
    def __init__(self, ref): self.ref = ref
class Poison:
    def __init__(self, why): self.why = why
COUT = Stream(None)

class Env:
    __slots__ = ("d", "log", "ty")
    def __init__(self, d=None, log=None, ty=None): self.d = {} if d is None else d; self.log = log; self.ty = {} if ty is None else ty
    def copy(self): return Env(dict(self.d), self.log, self.ty)

def fpath(path):
    out = []
    for p in path:
        if p[0] != "f": break
        out.append(p)
    return tuple(out)

class Analyzer:
    def __init__(self, P, anchors=(), inline_rational=False, maxdepth=40):
        self.P = P; self.Ty = Types(P); self.anchors = set(anchors); self.inline_rational = inline_rational
        if inline_rational:
            self.Ty.memo = {}
            orig = Types._info
            ty = self.Ty
            def _info(t):
                if t is not None and t >= 0 and P.types[t].get("k") == "rec" and P.types[t].get("n") == "rational": return ("rec", "rational")
                return orig(ty, t)
            ty._info = _info
        self.stack = []; self.maxdepth = maxdepth
        self.byq = {}
        for u, f in P.functions.items(): self.byq.setdefault(f["q"], []).append(f)
        self.used = set(); self.calls = set(); self.ntmp = 0
        for t in range(len(P.types)):
            i = self.Ty.info(t)
            if i[0] == "pair": TM.PAIRS[self.Ty.cname(t)] = ("first", "second"); TM.REC_FIELDS[self.Ty.cname(t)] = ("first", "second")
            if i[0] == "tuple":
                n = tuple(str(k) for k in range(len(i) - 1)); TM.PAIRS[self.Ty.cname(t)] = n; TM.REC_FIELDS[self.Ty.cname(t)] = n
        self.lin_types = set()

    # -------------------------------------------------------------- values and locations
    def typed(self, x, t):
        """register what is known about a structural term from its C++ type"""
        if isinstance(x, T) and not ispoly(x) and x.op not in ("cat", "el"):
            i = self.Ty.info(t)
            if i[0] == "seq":
                note_seq(x, self.Ty.sort(i[1]))
                if i[2] is not None and is_opaque(x): TM.ARRLEN.setdefault(x, i[2])
        return x
    def field_t(self, owner_t, name, rec):
        i = self.Ty.info(owner_t)
        return None
    def symval(self, name, t):
        s = self.Ty.sort(t)
        return self.typed(sym(name + "`" + self.Ty.canon(self.Ty.cname(self.Ty.strip(t))), s), t)
    def default(self, t):
        i = self.Ty.info(t); k = i[0]
        if k in ("bool", "int", "enum", "rational", "float"): return ZERO
        if k == "seq":
            if i[2] is not None:
                v = fresh("n", "i"); va = single_atom(v); set_bounds(va, ZERO, const(i[2] - 1))
                return bind("cmap", const(i[2]), va, el(self.default(i[1])))
            return EMPTY
        if k in ("map", "set"): return MEMPTY
        if k == "pair": return rec(self.Ty.cname(t), None, (("first", self.Ty.sort(i[1]), self.default(i[1])), ("second", self.Ty.sort(i[2]), self.default(i[2]))))
        if k == "tuple": return rec(self.Ty.cname(t), None, tuple((str(n), self.Ty.sort(a), self.default(a)) for n, a in enumerate(i[1:])))
        if k == "rec": return raw("undef", i[1])
        if k == "stream": return EMPTY
        if k in ("regex", "time", "lock", "lib"): return raw("undef", k)
        if k in ("ptr", "sptr", "fn", "iter", "future"): return Poison("uninitialised " + k)
        return Poison("no default for " + str(i))
    def step(self, v, p):
        """one access step on a value"""
        if isinstance(v, Poison): raise Unsupported(v.why)
        if isinstance(v, Ref): raise Unsupported("reference inside a value")
        if not isinstance(v, T): raise Unsupported("access into " + type(v).__name__)
        if p[0] == "f": return self.typed(field(v, p[1], p[2]), p[4])
        if p[0] == "i": return self.typed(at(v, p[1], p[2]), p[3])
        if p[0] == "k": return self.typed(mget(v, p[1], p[2]), p[3])
        raise Unsupported("path")
    def load(self, ref, env):
        if ref.root not in env.d: raise Unsupported("unknown location " + str(ref.root))
        v = env.d[ref.root]
        if isinstance(v, Either): v = self.merge_val(v.c, self.load(Ref(v.a.root, v.a.path + ref.path, ref.t), env), self.load(Ref(v.b.root, v.b.path + ref.path, ref.t), env))
        else:
            for p in ref.path: v = self.step(v, p)
        if isinstance(v, Poison): raise Unsupported(v.why)
        return v
    def store(self, ref, val, env):
        x = env.d.get(ref.root) if isinstance(ref, Ref) else None
        if isinstance(x, Either):
            for r, c in ((x.a, x.c), (x.b, pnot(x.c))):
                r = Ref(r.root, r.path + ref.path, ref.t)
                self.store(r, self.merge_val(c, val, self.load(r, env)), env)
            return
        if env.log is not None: env.log.add((ref.root, fpath(ref.path)))
        if not ref.path:
            env.d[ref.root] = val; return
        env.d[ref.root] = self.put(env.d[ref.root], ref.path, val)
    def put(self, v, path, val):
        if not path: return val
        p = path[0]
        if len(path) > 1: val = self.put(self.step(v, p), path[1:], val)
        if not isinstance(val, T): raise Unsupported("storing %s into an object" % type(val).__name__)
        if isinstance(v, Poison): raise Unsupported(v.why)
        if p[0] == "f":
            if v.op == "undef": return rec(p[3], None, ((p[1], p[2], val),))
            return rec(p[3], v, ((p[1], p[2], val),))
        if p[0] == "i":
            r = upd(v, p[1], val, p[2]); return note_like(r, v)
        if p[0] == "k": return mset(v, p[1], val)
    def val(self, x, env):
        """rvalue of an evaluation result"""
        if isinstance(x, Ref): return self.load(x, env)
        if isinstance(x, MElem): return self.melem(x, env)
        if isinstance(x, Poison): raise Unsupported(x.why)
        if isinstance(x, Tie):
            i = self.Ty.info(x.ty)
            return self.mkrec(x.ty, [(str(n), ft, self.tval(self.val(r, env))) for n, (ft, r) in enumerate(zip(i[1:], x.refs))])
        return x
    def melem(self, x, env):
        if x.entry is not None: return x.entry
        m = self.load(x.ref, env); i = self.Ty.info(x.ref.t)
        return rec("std::pair", None, (("first", self.Ty.sort(i[1]), x.key), ("second", self.Ty.sort(i[2]), mget(m, x.key, self.Ty.sort(i[2])))))
    def temp(self, v, t, env):
        self.ntmp += 1
        r = "tmp#%d" % self.ntmp
        env.d[r] = v; env.ty[r] = t
        return Ref(r, (), t)
    def asref(self, x, t, env):
        if isinstance(x, Ref): return x
        return self.temp(x, t, env)
    def fref(self, ref, name, ft, ty):
        return Ref(ref.root, ref.path + (("f", name, self.Ty.sort(ft), ty, ft),), ft)

    # -------------------------------------------------------------- merging
    def merge_val(self, c, a, b):
        if a is b: return a
        if isinstance(a, T) and isinstance(b, T):
            if a.op == "undef": return b
            if b.op == "undef": return a
            if ispoly(a) != ispoly(b): return Poison("merge of different kinds")
            return ite(c, a, b)
        if type(a) is type(b):
            if isinstance(a, Iter) and a.ref == b.ref and a.rev == b.rev: return Iter(a.ref, ite(c, a.pos, b.pos), a.rev, a.map)
            if isinstance(a, (Ref, Ptr)) and a == b: return a
            if isinstance(a, Lam) and a.node is b.node: return a
            if isinstance(a, Stream): return a
        return Poison("merge of " + type(a).__name__ + " and " + type(b).__name__)
    def merge_env(self, c, a, b):
        """environment: a if c else b"""
        if a is b: return a
        d = {}
        for k, v in a.d.items():
            if k in b.d:
                w = b.d[k]
                d[k] = v if v is w else self.merge_val(c, v, w)
            elif isinstance(k, str) and k.startswith("tmp#"): d[k] = v
        for k, w in b.d.items():
            if k not in d and isinstance(k, str) and k.startswith("tmp#"): d[k] = w
        return Env(d, a.log, a.ty)
    def add_out(self, out, kind, cond, env, val):
        """out: kind -> (cond, env, val)"""
        if cond is ZERO: return
        if kind not in out: out[kind] = (cond, env, val); return
        c0, e0, v0 = out[kind]
        if kind == "t":
            out[kind] = (por(c0, cond), e0, v0); return
        e = self.merge_env(c0, e0, env)
        v = v0
        if kind == "r":
            v = v0 if v0 is val else (None if v0 is None or val is None else self.merge_val(c0, v0, val))
        out[kind] = (padd(c0, cond), e, v)

    # -------------------------------------------------------------- statements
    def exec(self, s, env):
        """execute statement: dict kind -> (cond, env, value); conditions are disjoint and sum to 1"""
        if s is None: return {"n": (ONE, env, None)}
        k = s["k"]
        m = getattr(self, "x_" + k, None)
        if m is None: raise Unsupported("statement " + k + (" " + s.get("cls", "") if k == "other" else ""))
        return m(s, env)
    def seq(self, stmts, env):
        out = {}
        cond = ONE
        for s in stmts:
            if env is None: break
            o = self.exec(s, env)
            for kk, (c, e, v) in o.items():
                if kk != "n": self.add_out(out, kk, pmul(cond, c), e, v)
            if "n" in o:
                c, env, _ = o["n"]; cond = pmul(cond, c)
            else: env = None
        if env is not None: self.add_out(out, "n", cond, env, None)
        return out
    def x_block(self, s, env): return self.seq(s["a"], env)
    def x_nop(self, s, env): return {"n": (ONE, env, None)}
    def x_expr(self, s, env):
        if s["e"] is not None and s["e"]["k"] == "throw": return self.throw(env)
        self.ev(s["e"], env)
        return self.after(env)
    def throw(self, env): self.leaving(env); return {"t": (ONE, env, None)}
    initial = None
    def leaving(self, env):
        """an exception leaves with env as the state: remember if anything visible outside has changed by then"""
        if self.initial is None: return
        for k, v in self.initial.items():
            w = env.d.get(k)
            if w is not v and not (isinstance(w, T) and isinstance(v, T) and w is v): self.dirty.append(k)
    def after(self, env):
        """an expression may have raised: split off that outcome"""
        x = env.d.get("#exc")
        if x is None or x is ZERO: return {"n": (ONE, env, None)}
        env.d["#exc"] = ZERO
        out = {}
        if x is not ONE: out["n"] = (pnot(x), env, None)
        out["t"] = (x, env, None)
        return out
    def x_ret(self, s, env):
        if s["e"] is None: return {"r": (ONE, env, None)}
        if s["e"]["k"] == "throw": return self.throw(env)
        f = self.stack[-1]
        isref = self.Ty.isref(f.get("ret", -1)) if f else False
        v = self.ev(s["e"], env)
        if not isref: v = self.val(v, env)
        o = self.after(env)
        out = {}
        if "n" in o: out["r"] = (o["n"][0], env, v)
        if "t" in o: out["t"] = o["t"]
        return out
    def x_break(self, s, env): return {"b": (ONE, env, None)}
    def x_continue(self, s, env): return {"c": (ONE, env, None)}
    def x_decl(self, s, env):
        for v in s["a"]: self.decl(v, env)
        return self.after(env)
    def decl(self, v, env):
        t = v["t"]; vid = v["id"]
        env.ty[vid] = t
        if v.get("static"): raise Unsupported("static local variable " + v["n"])
        if vid.startswith("G:"): raise Unsupported("local global")
        if self.Ty.info(t)[0] == "lock": env.d[vid] = raw("undef", "lock"); return
        if "init" not in v:
            env.d[vid] = self.default(t); return
        if v.get("bind"):
            x = self.ev(v["init"], env)
            self.bindings(v["bind"], x, t, env, v["init"].get("t", t)); 
            return
        x = self.lvalue(v["init"], env) if self.Ty.isref(t) else self.ev(v["init"], env)
        if self.Ty.isref(t):
            if not isinstance(x, Ref) and v["init"]["k"] == "cond" and not self.Ty.isconst(t): raise Unsupported("reference to one of two values")
            env.d[vid] = self.asref(x, t, env) if not isinstance(x, (MElem, Lam, Range_, Enum_)) else x
        else:
            x = self.val(x, env)
            env.d[vid] = self.convert(x, t)
    def convert(self, x, t):
        return x
    def bindings(self, bs, x, t, env, xt):
        byref = self.Ty.isref(t)
        if isinstance(x, tuple):     # (index, ref) of enumerate
            for b, y in zip(bs, x): env.d[b["id"]] = y; env.ty[b["id"]] = b["t"]
            return
        if isinstance(x, MElem):
            i = self.Ty.info(x.ref.t)
            m = self.load(x.ref, env)
            env.d[bs[0]["id"]] = x.key; env.ty[bs[0]["id"]] = i[1]
            if byref: env.d[bs[1]["id"]] = Ref(x.ref.root, x.ref.path + (("k", x.key, self.Ty.sort(i[2]), i[2]),), i[2])
            else: env.d[bs[1]["id"]] = self.typed(mget(m, x.key, self.Ty.sort(i[2])), i[2])
            env.ty[bs[1]["id"]] = i[2]
            return
        if not byref: x = self.val(x, env); x = self.temp(x, xt, env)
        else: x = self.asref(x, xt, env)
        i = self.Ty.info(x.t if x.t is not None else xt)
        ty = self.Ty.cname(x.t if x.t is not None else xt)
        for n, b in enumerate(bs):
            fn = b.get("f")
            if i[0] == "pair": fn = ("first", "second")[b["i"]]
            elif i[0] == "tuple": fn = str(b["i"])
            elif i[0] == "seq":
                env.d[b["id"]] = Ref(x.root, x.path + (("i", const(b["i"]), self.Ty.sort(i[1]), i[1]),), i[1]); env.ty[b["id"]] = b["t"]; continue
            if fn is None: raise Unsupported("structured binding")
            ft = i[1 + b["i"]] if i[0] in ("pair", "tuple") else b["t"]
            env.d[b["id"]] = self.fref(x, fn, ft, self.Ty.canon(ty)); env.ty[b["id"]] = ft
    def x_if(self, s, env):
        if s.get("init"):
            s2 = dict(s); s2.pop("init")
            return self.seq([s["init"], s2], env)
        if s.get("constexpr") and "cval" in s:
            return self.exec(s["a"] if s["cval"] else s["b"], env)
        if s.get("cv"): self.decl(s["cv"], env)
        c = self.cond(s["c"], env)
        o = self.after(env)
        if "t" in o and "n" not in o: return o
        r = self.branch(c, lambda e: self.exec(s["a"], e), lambda e: self.exec(s["b"], e), env)
        if "t" in o:
            out = {}
            for kk, (cc, e, v) in r.items(): self.add_out(out, kk, pmul(o["n"][0], cc), e, v)
            self.add_out(out, "t", *o["t"]); return out
        return r
    def branch(self, c, fa, fb, env):
        if c is ONE: return fa(env)
        if c is ZERO: return fb(env)
        ea = env.copy(); eb = env.copy()
        oa = fa(ea); ob = fb(eb)
        out = {}
        nc = pnot(c)
        for kk, (cc, e, v) in oa.items(): self.add_out(out, kk, pmul(c, cc), e, v)
        # merge so that the selection is made on c
        for kk, (cc, e, v) in ob.items():
            cc = pmul(nc, cc)
            if cc is ZERO: continue
            if kk not in out: out[kk] = (cc, e, v); continue
            c0, e0, v0 = out[kk]
            if kk == "t": out[kk] = (padd(c0, cc), e0, v0); continue
            e1 = self.merge_env(c, e0, e)
            v1 = v0 if v0 is v else (None if v0 is None or v is None else self.merge_val(c, v0, v)) if kk == "r" else None
            out[kk] = (padd(c0, cc), e1, v1)
        return out
    def x_switch(self, s, env):
        c = self.val(self.ev(s["c"], env), env)
        body = s["body"]["a"] if s["body"]["k"] == "block" else [s["body"]]
        # flatten into labelled statements
        flat = []
        for st in body:
            labels = []
            while st is not None and st["k"] in ("case", "default"):
                labels.append(None if st["k"] == "default" else st["v"]); st = st["a"]
            flat.append((labels, st))
        vals = []; any_ = ZERO
        for i, (ls, st) in enumerate(flat):
            for l in ls:
                if l is not None:
                    e = eqi(c, self.val(self.ev(l, env), env)); vals.append((e, i)); any_ = por(any_, e)
        for i, (ls, st) in enumerate(flat):
            if None in ls: vals.append((pnot(any_), i)); any_ = ONE
        def run(i, e):
            o = self.seq([st for _, st in flat[i:]], e)
            return o
        out = {}
        rest = ONE
        items = vals + ([(pnot(any_), None)] if any_ is not ONE else [])
        def go(k, e):
            if k >= len(items): return {"n": (ONE, e, None)}
            cc, i = items[k]
            if k == len(items) - 1: return run(i, e) if i is not None else {"n": (ONE, e, None)}
            return self.branch(cc, lambda x: run(i, x) if i is not None else {"n": (ONE, x, None)}, lambda x: go(k + 1, x), e)
        o = go(0, env)
        return self.unbreak(o)
    def unbreak(self, o):
        out = {}
        for kk, (c, e, v) in o.items(): self.add_out(out, "n" if kk == "b" else kk, c, e, v)
        return out
    def x_try(self, s, env):
        for h in s["h"]:
            pass
        o = self.exec(s["body"], env)
        if "t" in o: raise Unsupported("exception handler")
        return o

    # -------------------------------------------------------------- loops
    def x_for(self, s, env):
        if s["init"] is not None:
            o = self.exec(s["init"], env)
            if set(o) != {"n"}: raise Unsupported("loop initialiser")
            env = o["n"][1]
        head = (lambda e: self.cond(s["c"], e)) if s["c"] is not None else (lambda e: ONE)
        inc = (lambda e: self.ev(s["inc"], e)) if s["inc"] is not None else (lambda e: None)
        v, m = self.map_loop(s, env, head, inc)
        if v is not None:
            ent = note_seq(entries(self.load(m.ref, env)), "s")
            i = self.Ty.info(m.ref.t)
            def body(e):
                k = KIter(m.ref, self.typed(field(at(ent, self.e_pos(e), "s"), "first", self.Ty.sort(i[1])), i[1]), False, self.e_pos(e))
                e.d[v] = k
                o = self.exec(s["body"], e)
                if any(x[1].d.get(v) is not k for kk, x in o.items() if kk in ("n", "c")): raise Unsupported("iterator reassigned in a loop")
                return o
            del env.d[v]
            return self.count_loop(length(ent), body, env, s)
        return self.loop(head, lambda e: self.exec(s["body"], e), inc, env, s)
    def map_loop(self, s, env, head, inc):
        """a loop that visits the entries of a map from the first to the last through an iterator: (variable, start)"""
        no = (None, None)
        if s["init"] is None or s["c"] is None or s["inc"] is None: return no
        new = [k for k, x in env.d.items() if isinstance(x, Iter) and x.map and x.pos is ZERO and not x.rev and k in env.ty and isinstance(x.ref, Ref)]
        new = [k for k in new if any(d.get("id") == k for d in s["init"].get("a", ()))]
        if len(new) != 1: return no
        v = new[0]; it = env.d[v]
        try:
            if self.Ty.info(it.ref.t)[0] != "map": return no
            p = fresh("n", "p"); set_bounds(single_atom(p), ZERO, None)
            e = env.copy(); e.log = set(); e.d[v] = Iter(it.ref, p, it.rev, it.map)
            n = length(note_seq(entries(self.load(it.ref, env)), "s"))
            if head(e) is not pnot(eqi(p, n)) or e.log: return no
            inc(e)
            x = e.d[v]
            if not isinstance(x, Iter) or x.pos is not padd(p, ONE) or e.log - {(v, ())}: return no
        except (Unsupported, AttributeError, TypeError): return no
        return v, it
    def x_while(self, s, env):
        def head(e):
            if s.get("cv"): self.decl(s["cv"], e)
            return self.cond(s["c"], e)
        return self.loop(head, lambda e: self.exec(s["body"], e), lambda e: None, env, s)
    def x_do(self, s, env):
        np = self.next_perm(s["c"])
        if np is not None: return self.perm_loop(s, np, env)
        c = s["c"]
        while c and c["k"] in ("cast", "paren"): c = c["a"]
        if c and c["k"] == "bin" and c.get("op") in ("&&", "and") and self.next_perm(c["b"]) is not None and not self.impure(c["a"]):
            return self.perm_loop(s, self.next_perm(c["b"]), env, c["a"])
        # body once, then a while loop (only when nothing leaves the loop)
        o = self.exec(s["body"], env)
        if set(o) - {"n", "c", "t"}: raise Unsupported("do loop with exits")
        o = self.unc(o)
        if "n" not in o: return o
        r = self.loop(lambda e: self.cond(s["c"], e), lambda e: self.exec(s["body"], e), lambda e: None, o["n"][1], s)
        out = {}
        for kk, (c, e, v) in r.items(): self.add_out(out, kk, pmul(o["n"][0], c), e, v)
        if "t" in o: self.add_out(out, "t", *o["t"])
        return out
    def unc(self, o):
        out = {}
        for kk, (c, e, v) in o.items(): self.add_out(out, "n" if kk == "c" else kk, c, e, v)
        return out
    def next_perm(self, c):
        if c and c["k"] == "call" and c.get("f") and self.P.functions[c["f"]]["n"] == "next_permutation":
            a = c["a"]
            return a
        return None
    def impure(self, e):
        bad = []
        def walk(x):
            if isinstance(x, dict):
                if x.get("k") in ("assign", "lambda", "throw") or x.get("k") == "un" and x.get("op") in ("++", "--"): bad.append(x)
                for y in x.values(): walk(y)
            elif isinstance(x, list):
                for y in x: walk(y)
        walk(e)
        return bool(bad)
    def perm_loop(self, s, a, env, also=None):
        """do body while (next_permutation(v)): body for every permutation of the sequence, in order"""
        it = self.val(self.ev(a[0], env), env)
        if not isinstance(it, Iter): raise Unsupported("next_permutation")
        ref = it.ref
        v0 = self.load(ref, env)
        perms = note_seq(app("permutations", (v0,), "s"), "s")
        n = length(perms)
        c0 = None
        if also is not None:
            # a condition that no step changes: all permutations, or just the first
            c0 = self.cond(also, env); n = padd(pmul(c0, n), pnot(c0))
        t = fresh("n", "p"); ta = single_atom(t); set_bounds(ta, ZERO, psub(n, ONE))
        es = self.Ty.sort(self.Ty.elem(ref.t))
        def head(e): 
            return ONE
        def body(e):
            cur = self.e_pos(e)
            p = note_seq(at(perms, cur, "s"), es)
            TM.SEQ_SORT[p] = es
            self.store(ref, p, e)
            o = self.exec(s["body"], e)
            if c0 is not None:
                for kk, (_, e2, _) in o.items():
                    if kk in ("n", "c") and self.cond(also, e2) is not c0: raise Unsupported("condition that changes in a loop over permutations")
            return o
        return self.count_loop(n, body, env, s, extra=[ref])
    def x_rfor(self, s, env):
        if s.get("init"):
            o = self.exec(s["init"], env); env = o["n"][1]
        if s["range"]["k"] == "ilist" and s["range"]["a"] and all(x.get("k") == "un" and x.get("op") == "&" for x in s["range"]["a"]):
            # over a list of addresses: one object after the other
            xs = [self.ev(x, env) for x in s["range"]["a"]]
            if not all(isinstance(x, Ptr) for x in xs): raise Unsupported("list of addresses")
            out = {}; cond = ONE; v = s["var"]
            for x in xs:
                env.ty[v["id"]] = v["t"]; env.d[v["id"]] = x
                o = self.unc(self.exec(s["body"], env))
                for kk, (c, e, vv) in o.items():
                    if kk != "n": self.add_out(out, kk, pmul(cond, c), e, vv)
                if "n" in o: c, env, _ = o["n"]; cond = pmul(cond, c)
                else: env = None; break
            if env is not None: self.add_out(out, "n", cond, env, None)
            return self.unbreak(out)
        r = self.ev(s["range"], env)
        rt = s["rt"]
        if isinstance(r, MElem): r = self.val(r, env)
        if isinstance(r, Range_):
            n = psub(r.hi, r.lo)
            def body(e):
                i = padd(r.lo, self.e_pos(e))
                e.d[s["var"]["id"]] = i; e.ty[s["var"]["id"]] = s["var"]["t"]
                return self.exec(s["body"], e)
            return self.count_loop(n, body, env, s)
        if isinstance(r, Enum_):
            et = self.Ty.elem(r.t); es = self.Ty.sort(et)
            n = length(self.load(r.ref, env))
            def body(e):
                pos = self.e_pos(e)
                x = (pos, Ref(r.ref.root, r.ref.path + (("i", pos, es, et),), et))
                v = s["var"]
                if v.get("bind"): self.bindings(v["bind"], x, v["t"], e, None)
                else: raise Unsupported("enumerate without structured binding")
                return self.exec(s["body"], e)
            return self.count_loop(n, body, env, s)
        i = self.Ty.info(rt)
        if i[0] == "rec":
            # a class with begin()/end(): find the sequence behind it
            b = self.find_method(rt, "begin")
            if b is None: raise Unsupported("range-for over " + i[1])
            ref = self.asref(r, rt, env)
            it = self.val(self.inline(b, ref, [], env), env)
            if not isinstance(it, Iter) or it.pos is not ZERO or it.rev: raise Unsupported("range-for over " + i[1])
            r = it.ref; rt = r.t; i = self.Ty.info(rt)
        if i[0] == "map":
            ref = self.asref(r, rt, env)
            if ref.t is None: ref.t = rt
            m = self.load(ref, env)
            ent = note_seq(entries(m), "s")
            n = length(ent)
            def body(e):
                pos = self.e_pos(e)
                entry = at(ent, pos, "s")
                key = self.typed(field(entry, "first", self.Ty.sort(i[1])), i[1])
                x = MElem(ref, key)
                v = s["var"]; e.ty[v["id"]] = v["t"]
                if v.get("bind"): self.bindings(v["bind"], x, v["t"], e, None)
                elif self.Ty.isref(v["t"]): e.d[v["id"]] = x
                else: e.d[v["id"]] = MElem(ref, key, entry)
                return self.exec(s["body"], e)
            return self.count_loop(n, body, env, s)
        if i[0] != "seq": raise Unsupported("range-for over %s" % (i,))
        et = i[1]; es = self.Ty.sort(et)
        ref = self.asref(r, rt, env)
        lst_ = self.load(ref, env)
        v = s["var"]
        byref = self.Ty.isref(v["t"])
        def setvar(e, pos, value):
            e.ty[v["id"]] = v["t"]
            x = Ref(ref.root, ref.path + (("i", pos, es, et),), et) if value is None else value
            if v.get("bind"):
                self.bindings(v["bind"], x if value is None else x, v["t"], e, et); return
            if byref and value is None: e.d[v["id"]] = x
            elif byref: e.d[v["id"]] = self.temp(x, et, e)
            else: e.d[v["id"]] = self.val(x, e)
        ps = parts(lst_)
        mutates = byref and not self.Ty.isconst(v["t"])
        if len(ps) > 1 and not mutates:
            # known structure: go through the parts one after the other
            out = {}; cond = ONE
            def one(x):
                return lambda e: (setvar(e, None, x), self.unc(self.exec(s["body"], e)))[1]
            for p in ps:
                if env is None: break
                if p.op == "el": o = one(p.args[0])(env)
                else:
                    n = length(p)
                    pp = p
                    def body(e, pp=pp):
                        setvar(e, None, self.typed(at(pp, self.e_pos(e), es), et)); return self.exec(s["body"], e)
                    if n is not ZERO and p.op == "ite":
                        raise Unsupported("range over conditional list")
                    o = self.count_loop(n, body, env, s, keepbreak=True)
                for kk, (c, e, vv) in o.items():
                    if kk != "n": self.add_out(out, kk, pmul(cond, c), e, vv)
                if "n" in o: c, env, _ = o["n"]; cond = pmul(cond, c)
                else: env = None
            if env is not None: self.add_out(out, "n", cond, env, None)
            return self.unbreak(out)
        n = length(lst_)
        def body(e):
            setvar(e, self.e_pos(e), None)
            return self.exec(s["body"], e)
        return self.count_loop(n, body, env, s)
    def e_pos(self, e): return e.d["#pos"]
    def count_loop(self, n, body, env, s, extra=(), keepbreak=False):
        """body executed for #pos = 0 .. n-1"""
        saved = env.d.get("#pos")
        env.d["#pos"] = ZERO
        def head(e): return lt(e.d["#pos"], n)
        def inc(e):
            if e.log is not None: e.log.add(("#pos", ()))
            e.d["#pos"] = padd(e.d["#pos"], ONE)
        o = self.loop(head, body, inc, env, s, known=n, keepbreak=keepbreak)
        for kk, (c, e, v) in o.items():
            if saved is None: e.d.pop("#pos", None)
            else: e.d["#pos"] = saved
        return o
    # the general loop
    def comp_get(self, env, comp):
        root, path = comp
        v = env.d[root]
        if path and not isinstance(v, T): raise Unsupported("loop modifies an object of kind " + type(v).__name__)
        for p in path: v = self.step(v, p)
        return v
    def comp_put(self, env, comp, val):
        root, path = comp
        env.d[root] = self.put(env.d[root], path, val) if path else val
    def loop(self, head, body, inc, env, s, known=None, keepbreak=False):
        pre = set(env.d)
        comps = []
        outer_log = env.log
        entry = env
        for rnd in range(8):
            e = entry.copy(); e.log = set()
            havoc = {}
            bad = None
            for comp in comps:
                v = self.comp_get(entry, comp)
                havoc[comp] = self.havoc(v, comp, entry)
            for comp in comps: self.comp_put(e, comp, havoc[comp])
            if known is not None and ("#pos", ()) in havoc:
                set_bounds(single_atom(havoc[("#pos", ())]), ZERO, psub(known, ONE))
            it = self.iteration(head, body, inc, e)
            new = [c for c in e.log if c[0] in pre and not self.covered(c, comps)]
            if not new: break
            # drop components which are refined by a new shorter path
            for c in sorted(new, key=lambda c: (len(c[1]), str(c))):
                if self.covered(c, comps): continue
                comps = [d for d in comps if not (d[0] == c[0] and d[1][:len(c[1])] == c[1])] + [c]
            comps.sort(key=lambda c: (c[0], str(c[1])))
        else: raise Unsupported("loop does not stabilise")
        if outer_log is not None:
            for c in comps: outer_log.add(c)
            outer_log |= {c for c in e.log}
        cond, o = it
        return self.solve(entry, comps, havoc, cond, o, keepbreak, s, known)
    def covered(self, c, comps): return any(d[0] == c[0] and c[1][:len(d[1])] == d[1] for d in comps)
    def havoc(self, v, comp, env):
        if isinstance(v, T):
            if not ispoly(v):
                x = fresh("s", "s")
                if v.op == "cat" or v.op == "el" or v in TM.SEQ_SORT:
                    t = self.comp_type(comp, env)
                    if t is not None: self.typed(x, t)
                return x
            t = self.comp_type(comp, env)
            so = self.Ty.sort(t) if t is not None else "n"
            if so == "s" or so == "u": so = "n"
            return fresh(so, "s")
        if isinstance(v, Iter): return Iter(v.ref, fresh("n", "it"), v.rev, v.map)
        if isinstance(v, (Lam, Ptr, Ref, Stream)): return v
        raise Unsupported("loop-carried " + type(v).__name__)
    def comp_type(self, comp, env):
        root, path = comp
        if path: return path[-1][4]
        return env.ty.get(root)
    def iteration(self, head, body, inc, env):
        """one symbolic iteration: (loop condition, outcomes of the body with 'n' after the increment)"""
        c = head(env)
        if env.d.get("#exc", ZERO) is not ZERO: raise Unsupported("exception in a loop condition")
        o = self.unc(body(env.copy() if False else env))
        if "n" in o:
            cc, e, _ = o["n"]
            inc(e)
            o["n"] = (cc, e, None)
        return c, o

    def solve(self, entry, comps, havoc, cond, o, keepbreak, s, known=None):
        symof = {}; init = {}; nxt = {}
        def scal(v): return v.pos if isinstance(v, Iter) else v
        static = []
        for c in comps:
            h = havoc[c]; i0 = self.comp_get(entry, c)
            if isinstance(h, (Lam, Ptr, Ref, Stream)): static.append(c); continue
            x = scal(h); a = single_atom(x) if ispoly(x) else x
            symof[c] = a; init[a] = scal(i0)
        exitc = ZERO
        exits = {}
        for kk, (c, e, v) in o.items():
            if kk in ("b", "r", "t"): exits[kk] = (c, e, v); exitc = padd(exitc, c)
        ncond = o["n"][0] if "n" in o else ZERO
        if "n" in o:
            e = o["n"][1]
            for c in comps:
                if c in static:
                    continue
                v = self.comp_get(e, c)
                if isinstance(v, Poison): raise Unsupported(v.why)
                h = havoc[c]
                if isinstance(h, Iter):
                    if not isinstance(v, Iter) or v.ref != h.ref: raise Unsupported("iterator reassigned in a loop")
                    v = v.pos
                if not isinstance(v, T): raise Unsupported("loop-carried " + type(v).__name__)
                nxt[symof[c]] = v
        else:
            for c in comps:
                if c not in static: nxt[symof[c]] = init[symof[c]]
        # values are only relevant while the loop goes on
        if ncond is not ONE:
            for a, v in list(nxt.items()): nxt[a] = assume_cond(v, ncond)
        t = fresh("n", "t"); ta = single_atom(t)
        set_bounds(ta, ZERO, None)
        cl = Closer(self, t, ta, init, nxt)
        cl.linear()
        # the length of a sequence whose elements are only overwritten stays what it was
        C = cl.sub(cond)
        open_ = [a for a in cl.unclosed() if a in cond.syms]
        if open_:
            m = {}
            for a in open_:
                if not ispoly(a) and length(a) is not length(cl.nxt[a]): continue
                la = single_atom(length(a)) if a.op == "sym" and not ispoly(a) else None
                if la is not None and la.op == "len": m[la] = length(init[a])
            if m: C = TM.replace(C, m)
        # trip count
        n, E = (known, None) if known is not None else self.trip(C, t, ta)
        if n is not None and n.syms & set(cl.unclosed()): n, E = None, None
        if n is not None:
            set_bounds(ta, ZERO, psub(n, ONE))
            n_ = n
            cl.refresh()
        cl.close()
        if n is not None and E is not None: E = cl.sub(E)
        X = {kk: (cl.sub(c), e, v) for kk, (c, e, v) in exits.items()}
        stopc = ZERO if E is None else E
        for kk, (c, e, v) in X.items(): stopc = por(stopc, c)
        unc = cl.unclosed()
        un = set(unc)
        if n is not None and stopc is ZERO:
            cl.fold_rest(n)
            final = cl.at(n)
            env = self.apply(entry, comps, static, havoc, symof, final)
            return {"n": (ONE, env, None)}
        if n is not None and not (stopc.syms & un):
            cl.fold_rest(n)
            stopc = cl.sub(stopc)
            A = self.bindany(n, ta, stopc)
            if A is ZERO:
                env = self.apply(entry, comps, static, havoc, symof, cl.at(n)); return {"n": (ONE, env, None)}
            F = self.bindfirst(n, ta, stopc)
            out = {}
            env = self.apply(entry, comps, static, havoc, symof, cl.at(n))
            self.add_out(out, "n", pnot(A), env, None)
            fin = cl.at(F)
            if E is not None and cl.sub(E) is not ZERO:
                Ef = subst(cl.sub(E), {ta: F})
                Ef = ONE if not X else Ef
                env = self.apply(entry, comps, static, havoc, symof, fin)
                self.add_out(out, "n", pmul(A, Ef), env, None)
            for kk, (c, e, v) in X.items():
                cc = subst(cl.sub(c), {ta: F})
                if len(X) == 1 and (E is None or cl.sub(E) is ZERO): cc = ONE
                env, v2 = self.apply_env(e, v, fin, entry)
                kind = "n" if kk == "b" and not keepbreak else kk
                self.add_out(out, kind, pmul(A, cc), env, v2)
            return out
        # general loop: explicit fixed-point
        return self.mu(entry, comps, static, havoc, symof, cl, cond, exits, o, keepbreak, n)
    def bindany(self, n, ta, c):
        return bind("any", n, ta, c)
    def bindfirst(self, n, ta, c):
        # conditions which do not depend on the index do not matter for the position, if it exists
        F = bind("first", n, ta, c)
        a = single_atom(F)
        if a is not None: set_bounds(a, ZERO, psub(n, ONE))
        return F
    def apply(self, entry, comps, static, havoc, symof, final):
        e = entry.copy()
        for c in comps:
            if c in static: continue
            v = final[symof[c]]; h = havoc[c]
            if isinstance(h, Iter): v = Iter(h.ref, v, h.rev, h.map)
            else:
                t = self.comp_type(c, entry)
                if t is not None: self.typed(v, t)
            self.comp_put(e, c, v)
        return e
    def apply_env(self, e, v, fin, entry):
        """environment of an exit outcome with loop symbols replaced"""
        def f(x):
            if isinstance(x, T): return subst(x, fin) if (x.syms & fin.keys()) else x
            if isinstance(x, Iter): return Iter(f(x.ref), f(x.pos), x.rev, x.map)
            if isinstance(x, Ref): return Ref(x.root, tuple((p[0], f(p[1])) + p[2:] if p[0] in ("i", "k") else p for p in x.path), x.t)
            if isinstance(x, Ptr): return Ptr(f(x.ref))
            if isinstance(x, Either): return Either(f(x.c), f(x.a), f(x.b))
            if isinstance(x, KIter): return KIter(x.ref, f(x.key), x.end, f(x.pos) if x.pos is not None else None)
            if isinstance(x, MElem): return MElem(x.ref, f(x.key), f(x.entry) if x.entry is not None else None)
            if isinstance(x, tuple): return tuple(f(y) for y in x)
            return x
        keep = entry.d
        d = {k: f(x) for k, x in e.d.items() if k in keep or (isinstance(k, str) and k.startswith("tmp#"))}
        return Env(d, entry.log, entry.ty), f(v)
    def trip(self, C, t, ta, depth=0):
        """number of iterations n and an additional head exit condition E, or (None, None)"""
        if C is ONE: return None, None
        if C is ZERO: return ZERO, None
        lits = cond_literals_q(C)
        n = None; rest = ONE
        for l in lits:
            m = self.trip1(l, t, ta) if n is None else None
            if m is not None and n is None: n = m
            else: rest = pmul(rest, l)
        if n is None:
            if depth > 2: return None, None
            # the bound itself is a case distinction
            for a in sorted((x for m, c in C.args[0] for x, _ in m if isbool(x) and ta not in x.syms), key=lambda x: (x.size, x.dig)):
                x, y = assume(C, a, True), assume(C, a, False)
                n1, e1 = self.trip(x, t, ta, depth + 1)
                n2, e2 = self.trip(y, t, ta, depth + 1)
                if n1 is not None and n2 is not None and e1 is None and e2 is None: return ite(atom(a), n1, n2), None
                break
            return None, None
        return n, (None if rest is ONE else pnot(rest))
    def trip1(self, l, t, ta):
        """iterations allowed by one literal"""
        # recognise [q<=k], not [q<=k], not (q == k)
        a = None; neg = False; eq = False
        ms = l.args[0]
        x = single_atom(l)
        if x is not None and x.op == "le": a = x
        else:
            y = single_atom(pnot(l))
            if y is not None and y.op == "le": a = y; neg = True
            else:
                z = pnot(l)      # 1 - ([q<=k]-[q<=k-1])
                les = [w for m, c in z.args[0] for w, _ in m if w.op == "le"]
                if len(z.args[0]) == 2 and len(les) == 2 and les[0].args[0] is les[1].args[0] and abs(les[0].args[1] - les[1].args[1]) == 1:
                    a = max(les, key=lambda w: w.args[1]); eq = True
                    if z is not psub(atom(a), atom(min(les, key=lambda w: w.args[1]))): return None
        if a is None: return None
        q, k = a.args
        if ta in set().union(*[set(y.syms) for y in [q]]) if q.syms else False:
            lc = linear_coef(q, ta)
            if lc is None: return None
            c, rest = lc
            if abs(c) != 1: return None
            if eq:
                # c*t + rest != k
                return psub(const(k), rest) if c == 1 else psub(rest, const(k))
            if not neg and c == 1: return padd(psub(const(k), rest), ONE)      # t <= k - rest
            if neg and c == -1: return psub(rest, const(k))                     # -t + rest > k  <=> t < rest - k
            return None
        return None
    def mu(self, entry, comps, static, havoc, symof, cl, cond, exits, o, keepbreak, n):
        """while cond and no exit: state := next; expressed with an explicit least fixed point"""
        syms = [symof[c] for c in comps if c not in static]
        outs = list(exits.items())
        R = {}; ren = lambda x: x
        if n is not None and ("#pos", ()) in symof:
            # the position is only known to be inside the range while the loop goes on
            p = symof[("#pos", ())]; b = fresh("n", "p"); ba = single_atom(b); set_bounds(ba, ZERO, None)
            R = {p: b}; ren = lambda x: subst(x, R) if isinstance(x, T) and (x.syms & R.keys()) else x
            cond = lt(b, n)
        # continue condition over the state
        stop = ZERO
        for kk, (c, e, v) in exits.items(): stop = por(stop, c)
        go = pmul(cond, pnot(ren(stop)))
        # only the components needed
        name = lambda a: single_atom(R[a]) if a in R else a
        cinit = {name(a): cl.init[a] for a in syms}; cnxt = {name(a): ren(cl.nxt0[a]) for a in syms}
        live = set(cnxt)
        order = [name(a) for a in syms]
        final = {}
        for k, a in enumerate(order):
            # dependency closure of a (with the condition)
            dep = closure({a} | (set(go.syms) & live), {x: set(cnxt[x].syms) & live for x in order})
            sub_ = [x for x in order if x in dep]
            mm = mkmulti("mu", list(sub_), [x.args[1] for x in sub_], tuple(cinit[x] for x in sub_),
                         (go, tuple(cnxt[x] for x in sub_)), (sub_.index(a), a.args[1]))
            final[a] = mm
            for x in R:
                if name(x) is a: final[x] = mm
        env = self.apply(entry, comps, static, havoc, symof, final)
        fin = {a: v for a, v in final.items()}
        out = {}
        c1 = subst(cond, fin)
        if not exits:
            return {"n": (ONE, env, None)}
        # which way was the loop left
        if cond is ONE: rest = ONE
        else:
            self.add_out(out, "n", pnot(c1), env, None)
            rest = c1
        ks = list(exits.items())
        for j, (kk, (c, e, v)) in enumerate(ks):
            cc = subst(c, fin)
            if len(ks) == 1: cc = ONE
            env2, v2 = self.apply_env(e, v, fin, entry)
            self.add_out(out, "n" if kk == "b" and not keepbreak else kk, pmul(rest, cc), env2, v2)
        return out

def cond_literals_q(C):
    """split a condition into conjuncts where an equality counts as one literal"""
    out = []
    c = C
    for _ in range(10):
        if c is ONE: break
        if constval(c) is not None: return [C]
        ats = sorted(c_atoms(c), key=lambda a: a.dig)
        found = None
        for a in ats:
            if assume(c, a, False) is ZERO:
                # implied: maybe an equality [q<=k] - [q<=k-1]
                b = atom(a)
                found = (b, assume(c, a, True)); break
            if assume(c, a, True) is ZERO: found = (pnot(atom(a)), assume(c, a, False)); break
        if not found:
            # negated equality: 1 - [q<=k] + [q<=k-1]
            for a in ats:
                if a.op != "le": continue
                b = raw("le", a.args[0], a.args[1] - 1)
                if b in ats:
                    ne = pnot(psub(atom(a), atom(b)))
                    x = assume(assume(c, a, True), b, False)
                    if x is ZERO:
                        c1 = assume(c, b, True); c2 = assume(c, a, False)
                        if c1 is c2: found = (ne, c1); break
                        r = c1
                        if pmul(ne, r) is c: found = (ne, r); break
            if not found: out.append(c); break
        out.append(found[0]); c = found[1]
    return out or [C]

def closure(start, deps):
    seen = set(); todo = list(start)
    while todo:
        x = todo.pop()
        if x in seen or x not in deps: continue
        seen.add(x); todo.extend(deps[x])
    return seen
def note_like(r, v):
    if v in TM.SEQ_SORT and isinstance(r, T): note_seq(r, TM.SEQ_SORT[v])
    if v in TM.ARRLEN and isinstance(r, T) and is_opaque(r): TM.ARRLEN.setdefault(r, TM.ARRLEN[v])
    return r

class Closer:
    """closed forms of loop components as functions of the iteration number t"""
    def __init__(self, an, t, ta, init, nxt):
        self.an = an; self.t = t; self.ta = ta; self.init = init; self.nxt0 = nxt; self.nxt = dict(nxt); self.closed = {}
    def unclosed(self): return [a for a in self.nxt if a not in self.closed]
    def sub(self, x): return subst(x, self.closed) if isinstance(x, T) and (x.syms & self.closed.keys()) else x
    def linear(self):
        """invariant components and induction variables"""
        go = True
        while go:
            go = False
            for a in self.unclosed():
                v = self.sub(self.nxt[a])
                sv = wrap(a, a.args[1])
                if v is sv: self.closed[a] = self.init[a]; go = True; continue
                if not ispoly(v) or isbool(a): continue
                d = psub(v, sv)
                if constval(d) is not None: self.closed[a] = padd(self.init[a], pmul(self.t, d)); go = True
    def refresh(self): pass
    def close(self):
        go = True
        while go:
            go = False
            for a in self.unclosed():
                r = self.closed_form(a, self.sub(self.nxt[a]))
                if r is not None: self.closed[a] = r; go = True
    def prefix(self, op, body):
        """binder over j < t of body(t := j)"""
        j = fresh("n", "j"); ja = single_atom(j); set_bounds(ja, ZERO, psub(self.t, ONE))
        # bounds of the outer loop also hold for j
        b = subst(body, {self.ta: j})
        return bind(op, self.t, ja, b)
    def lastbit(self, d, a):
        """d = y*par(a) with y 0 or 1: the last bit of a is exchanged whenever y is 1"""
        y = {}
        for m, k in d.args[0]:
            q = [(x, e) for x, e in m if x.op == "par" and x.args[0] is atom(a) and e == 1]
            if len(q) != 1: return None
            y[tuple(z for z in m if z[0] is not q[0][0])] = k
        y = TM.mkpoly(y)
        if a in y.syms: return None
        if is_indicator(y): return y
        z = psub(ONE, pscale(y, 2)); b = single_atom(z)
        return y if b is not None and b.op == "par" else None
    def closed_form(self, a, v):
        so = a.args[1]; sv = wrap(a, so); init = self.init[a]
        other = set(self.unclosed()) - {a}
        if v.syms & other: return None
        if a not in v.syms:
            # overwritten in every iteration: value of the last one
            prev = subst(v, {self.ta: psub(self.t, ONE)})
            return ite(lt(ZERO, self.t), prev, init)
        if ispoly(v):
            if isbool(a):
                v1, v0 = assume(v, a, True), assume(v, a, False)
                if a in v1.syms or a in v0.syms: return None
                if v1 is ONE: return por(init, self.prefix("any", v0))
                if v0 is ZERO: return pmul(init, pnot(self.prefix("any", pnot(v1))))
                if v0 is ONE and v1 is ZERO: 
                    # toggles every time
                    return psub(padd(init, mod(self.t, const(2))), pscale(pmul(init, mod(self.t, const(2))), 2))
                if padd(v0, v1) is ONE:      # toggles when v0
                    p = self.prefix("sum", v0); m = mod(p, const(2))
                    return psub(padd(init, m), pscale(pmul(init, m), 2))
                return None
            d = psub(v, sv)
            if a not in d.syms: return padd(init, self.prefix("sum", d))
            y = self.lastbit(d, a)
            if y is not None: return padd(init, pmul(par(init), pscale(psub(ONE, par(self.prefix("sum", y))), Fraction(1, 2))))
            lc = lincoef(v, a)
            if lc is not None:
                g, r = lc
                if r is ZERO and a not in g.syms: return pmul(init, self.prefix("prod", g))
                # conditional overwrite by an invariant value: v = s + [c](w - s)
                if g.syms and not isinstance(g, int):
                    c = pnot(g)
                    if is_indicator(c) and a not in c.syms:
                        # r = c*w with w independent of t
                        w = r_over(r, c)
                        if w is not None and self.ta not in w.syms:
                            return ite(self.prefix("any", c), w, init)
                        if w is not None:
                            # last index where c holds
                            return ite(self.prefix("any", c), self.last(c, w), init)
            return None
        if v.op == "lin" or (init.op in ("lin", "mempty") and v.op == "lin"):
            p = v.args[0]; q = tolin(a)
            d = psub(p, q)
            if a not in d.syms: return lin(padd(tolin(init), self.prefix("sum", d)))
            return None
        ps = parts(v)
        if ps and ps[0] is a and len(ps) > 1 and not any(a in p.syms for p in ps[1:]):
            g = cat(*ps[1:])
            r = cat(init, self.prefix("cmap", g))
            if a in TM.SEQ_SORT: note_seq(r, TM.SEQ_SORT[a])
            return r
        if ps and ps[-1] is a and len(ps) > 1 and not any(a in p.syms for p in ps[:-1]):
            g = cat(*ps[:-1])
            j = fresh("n", "j"); ja = single_atom(j); set_bounds(ja, ZERO, psub(self.t, ONE))
            return cat(bind("cmap", self.t, ja, subst(g, {self.ta: psub(psub(self.t, ONE), j)})), init)
        if v.op == "upd" and v.args[0] is a:
            _, i, w, so2 = v.args
            if a not in i.syms:
                d = psub(i, self.t)
                if constval(d) == 0:
                    # element-wise: the new element may depend on the old one at the same position
                    probe = fresh(so2 if so2 != "s" else "s", "e")
                    x = replace_at(w, a, i, probe, so2)
                    if a not in x.syms:
                        pa = single_atom(probe) if ispoly(probe) else probe
                        x0 = subst(x, {pa: at(init, self.t, so2)})
                        m = self.prefix("cmap", el(x0))
                        r = cat(m, slc(init, self.t, length(init)))
                        if a in TM.SEQ_SORT: note_seq(r, TM.SEQ_SORT[a])
                        return r
                if self.ta not in i.syms and so2 == "s":
                    # the same row of a table all the time: the loop is one over the row
                    R = fresh("s", "e")
                    x = replace_at(w, a, i, R, so2)
                    if a not in x.syms and x is not R:
                        self.init[R] = at(init, i, so2)
                        r = self.closed_form(R, x)
                        del self.init[R]
                        if r is not None and R not in r.syms:
                            r = upd(init, i, r, so2)
                            if a in TM.SEQ_SORT: note_seq(r, TM.SEQ_SORT[a])
                            return r
                up = self.ta not in d.syms and d.syms.isdisjoint(self.init); e = padd(i, self.t); down = self.ta not in e.syms and e.syms.isdisjoint(self.init)
                if up or down:
                    # the same from another position on, or downwards
                    probe = fresh(so2 if so2 != "s" else "s", "e")
                    x = replace_at(w, a, i, probe, so2)
                    if a not in x.syms:
                        pa = single_atom(probe) if ispoly(probe) else probe
                        x0 = subst(x, {pa: at(init, i, so2)})
                        if up: r = cat(slc(init, ZERO, d), self.prefix("cmap", el(x0)), slc(init, padd(d, self.t), length(init)))
                        else:
                            j = fresh("n", "j"); ja = single_atom(j); set_bounds(ja, ZERO, psub(self.t, ONE))
                            m = bind("cmap", self.t, ja, el(subst(x0, {self.ta: psub(psub(self.t, ONE), j)})))
                            r = cat(slc(init, ZERO, padd(psub(e, self.t), ONE)), m, slc(init, padd(e, ONE), length(init)))
                        if a in TM.SEQ_SORT: note_seq(r, TM.SEQ_SORT[a])
                        return r
        if v.op == "ite":
            # set once under a condition, to a value independent of the iteration
            c = atom(v.args[0]); x, y = v.args[1], v.args[2]
            if y is a and a not in x.syms and a not in v.args[0].syms: 
                if self.ta not in x.syms: return ite(self.prefix("any", c), x, init)
                return ite(self.prefix("any", c), self.last(c, x), init)
            if x is a and a not in y.syms and a not in v.args[0].syms:
                if self.ta not in y.syms: return ite(self.prefix("any", pnot(c)), y, init)
                return ite(self.prefix("any", pnot(c)), self.last(pnot(c), y), init)
        if v.op == "rec" and v.args[1] is a:
            return None
        return None
    def last(self, c, w):
        """value of w at the last j < t with c"""
        j = fresh("n", "j"); ja = single_atom(j); set_bounds(ja, ZERO, psub(self.t, ONE))
        idx = psub(psub(self.t, ONE), j)
        f = bind("first", self.t, ja, subst(c, {self.ta: idx}))
        return subst(w, {self.ta: psub(psub(self.t, ONE), f)})
    def fold_rest(self, n):
        """remaining components: explicit folds over the iteration number, one per dependency group"""
        while True:
            un = self.unclosed()
            if not un: return
            nx = {a: self.sub(self.nxt[a]) for a in un}
            deps = {a: set(nx[a].syms) & set(un) for a in un}
            clo = {a: closure({a}, deps) for a in un}
            # a minimal group: strongly connected and not depending on anything outside
            g = min(un, key=lambda a: (len(clo[a]), a.args[0]))
            group = [a for a in un if a in clo[g]]
            j = fresh("n", "j"); ja = single_atom(j); set_bounds(ja, ZERO, psub(self.t, ONE))
            bodies = tuple(subst(nx[a], {self.ta: j}) for a in group)
            for k, a in enumerate(group):
                dep = [x for x in group]
                tt = mkmulti("fold", [ja] + dep, ["n"] + [x.args[1] for x in dep], (self.t,) + tuple(self.init[x] for x in dep), bodies, (k, a.args[1]))
                if not ispoly(tt) and a in TM.SEQ_SORT: note_seq(tt, TM.SEQ_SORT[a])
                self.closed[a] = tt
            self.close()
    def at(self, n):
        m = {self.ta: n}
        return {a: subst(v, m) for a, v in self.closed.items()}

def replace_at(w, s, i, probe, so):
    """replace at(s, i) by probe in w"""
    target = raw("at", s, i, so)
    return replace_term(w, target, probe)
_rt = {}
def replace_term(w, target, new):
    """replace an opaque subterm"""
    if isinstance(w, tuple): return tuple(replace_term(x, target, new) for x in w)
    if not isinstance(w, T): return w
    if w is target: return new
    if not (target.syms <= w.syms): return w
    ta = target
    if ispoly(w): return rebuild(w, lambda z: replace_term(z, target, new), {target: new} if ispoly(new) else None)
    return rebuild(w, lambda z: replace_term(z, target, new), {target: new} if ispoly(new) else None)
def lincoef(p, a):
    """p = g*a + r with a not in g, r as an atom factor"""
    g = {}; r = {}
    for m, c in p.args[0]:
        d = dict(m)
        if a in d:
            if d[a] != 1: return None
            del d[a]
            mm = tuple(sorted(d.items(), key=lambda ae: ae[0].dig))
            if any(a in x.syms for x in d): return None
            g[mm] = g.get(mm, 0) + c
        else:
            if any(a in x.syms for x, _ in m): return None
            r[m] = c
    return mkpoly(g), mkpoly(r)
def is_indicator(c): return pmul(c, c) is c
def r_over(r, c):
    """w with r = c*w, if simple"""
    cs = c_atoms(c)
    w = r
    for a, v in conj_literals(c): w = assume(w, a, v)
    if pmul(c, w) is r: return w
    return None

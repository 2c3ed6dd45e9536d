"""Expression evaluation, calls and library models of the value-flow analysis."""
from flow import *
from anchors import COMPARISONS
import flow as FL

COMPARE = {"==": lambda a, b: EQ(a, b), "!=": lambda a, b: pnot(EQ(a, b)), "<": lambda a, b: LT(a, b), ">": lambda a, b: LT(b, a),
           "<=": lambda a, b: pnot(LT(b, a)), ">=": lambda a, b: pnot(LT(a, b))}

class OutIter:
    __slots__ = ("ref", "sep")
    def __init__(self, ref, sep): self.ref = ref; self.sep = sep

class Flow(Analyzer):
    # ------------------------------------------------------------ basic expressions
    def cond(self, e, env):
        v = self.val(self.ev(e, env), env)
        if isinstance(v, T) and ispoly(v): return v
        if isinstance(v, (Ptr, Lam)): return ONE
        raise Unsupported("condition")
    def rv(self, e, env): return self.val(self.ev(e, env), env)
    def ev(self, e, env):
        m = getattr(self, "e_" + e["k"], None)
        if m is None: raise Unsupported("expression " + e["k"] + " " + e.get("cls", ""))
        return m(e, env)
    def e_int(self, e, env): return const(int(e["v"]))
    def e_char(self, e, env): return const(int(e["v"]))
    def e_bool(self, e, env): return ONE if e["v"] else ZERO
    def e_float(self, e, env):
        return const(Fraction(e["v"]))
    def e_str(self, e, env): return strlit(e["v"])
    def e_null(self, e, env): return Poison("null pointer")
    def e_enum(self, e, env): return const(e["v"])
    def e_zero(self, e, env): return self.default(e["t"])
    def e_this(self, e, env): return env.d["this"]
    def e_throw(self, e, env): env.d["#exc"] = ONE; return Poison("value of a throw")
    def e_fref(self, e, env):
        return FnRef(e["f"], self.ev(e["b"], env) if "b" in e and e["b"] else None)
    def e_ref(self, e, env):
        i = e["id"]
        if i in env.d:
            v = env.d[i]
            if isinstance(v, (Ref, MElem, Ptr, Lam, FnRef, Stream, Range_, Enum_)):
                return v
            return Ref(i, (), env.ty.get(i, e.get("t")))
        if i.startswith("G:"): return self.glob(i, e, env)
        raise Unsupported("unknown variable " + e.get("n", i))
    def glob(self, i, e, env):
        n = e.get("n", "")
        g = self.P.globals.get(i)
        if n == "cout" or n == "cerr": return COUT
        if n == "orbital_subspaces": return Ptr(self.registry(env))
        if g and g.get("repo") and "init" in g and (self.Ty.isconst(g["t"]) or g.get("constexpr") or self.Ty.info(g["t"])[0] == "lambda"):
            k = self.Ty.info(g["t"])[0]
            if k == "lambda": return self.ev(g["init"], env)
            if not hasattr(self, "_gl"): self._gl = {}
            if i not in self._gl: self._gl[i] = self.rv(g["init"], Env())
            return self._gl[i]
        if g and g.get("repo") and not self.Ty.isconst(g["t"]) and self.Ty.info(g["t"])[0] not in ("lock",):
            raise Unsupported("global variable " + n)
        return self.temp(self.symval("G:" + n, e["t"]), e["t"], env)
    def registry(self, env):
        if "osi" not in env.d:
            env.d["osi"] = sym("osi", "s"); env.ty["osi"] = None
        return Ref("osi", (), None)
    def e_member(self, e, env):
        b = self.ev(e["b"], env)
        ft = e["t"]; rn = e["rec"]; n = e["f"]
        if e.get("arrow"): b = self.deref(b, env)
        if isinstance(b, MElem):
            if n == "first": return b.key
            i = self.Ty.info(b.ref.t)
            return Ref(b.ref.root, b.ref.path + (("k", b.key, self.Ty.sort(i[2]), i[2]),), i[2])
        if isinstance(b, tuple): return b[0] if n == "first" else b[1]
        ty = self.owner(e, b)
        so = self.Ty.sort(ft)
        if isinstance(b, Ref): return Ref(b.root, b.path + (("f", n, so, ty, ft),), ft)
        if isinstance(b, T): return self.typed(field(b, n, so), ft)
        raise Unsupported("member of " + type(b).__name__)
    def owner(self, e, b):
        bt = e["b"].get("t", -1)
        if e.get("arrow"):
            i = self.Ty.info(bt)
            if i[0] in ("ptr", "sptr"): bt = i[1]
        n = self.Ty.cname(bt)
        if isinstance(b, Ref) and b.t is not None:
            m = self.Ty.cname(b.t)
            if n.startswith("std::pair") or m in self.Ty.recs: n = m
        return self.Ty.canon(n)
    def deref(self, b, env):
        if isinstance(b, Ref) and isinstance(env.d.get(b.root), (Ptr, Iter, KIter)) and not b.path: b = env.d[b.root]
        if isinstance(b, Ptr): return b.ref
        if isinstance(b, Iter): return self.iter_deref(b, env)
        if isinstance(b, KIter): return MElem(b.ref, b.key)
        if isinstance(b, Ref): return b          # 'this'
        if isinstance(b, T): return b
        if isinstance(b, MElem): return b
        raise Unsupported("dereference of " + type(b).__name__)
    def iter_deref(self, it, env):
        if it.map:
            i = self.Ty.info(it.ref.t); m = self.load(it.ref, env)
            entry = at(note_seq(entries(m), "s"), it.pos, "s")
            return MElem(it.ref, self.typed(field(entry, "first", self.Ty.sort(i[1])), i[1]))
        et = self.Ty.elem(it.ref.t); es = self.Ty.sort(et)
        pos = it.pos
        if it.rev: pos = psub(psub(length(self.load(it.ref, env)), ONE), pos)
        return Ref(it.ref.root, it.ref.path + (("i", pos, es, et),), et)
    def e_cast(self, e, env):
        ck = e["ck"]
        v = self.ev(e["a"], env)
        if ck in ("IntegralToBoolean", "FloatingToBoolean"):
            v = self.val(v, env)
            return self.tobool(v)
        if ck == "PointerToBoolean":
            return ONE
        if ck in ("IntegralCast", "IntegralToFloating", "FloatingCast", "ToVoid"):
            if ck == "ToVoid": return v
            v = self.val(v, env)
            i = self.Ty.info(e["t"])
            return v
        if ck == "FloatingToIntegral":
            v = self.val(v, env)
            c = constval(v)
            if isinstance(c, int): return v
            return app("trunc", (v,), "n")
        return v
    def slice(self, x, t):
        """the base part of an object of a derived class"""
        i = self.Ty.info(t)
        if not (isinstance(x, T) and i[0] == "rec" and x.op == "rec"): return x
        n = self.Ty.canon(i[1])
        want = TM.REC_FIELDS.get(n)
        if want is None or x.args[0] == n or x.args[0] not in TM.REC_FIELDS: return x
        have = TM.REC_FIELDS[x.args[0]]
        if set(want) < set(have):
            sorts = {m: so for m, so, w in x.args[2]}
            if x.args[1] is None and not set(want) <= set(sorts): return x
            return rec(n, None, tuple((m, sorts.get(m, "s"), field(x, m, sorts[m])) for m in want if m in sorts)) if all(m in sorts for m in want) else x
        return x
    def tobool(self, v):
        if not ispoly(v): return ONE
        if is_indicator(v): return v
        return pnot(eqi(v, ZERO))
    def lvalue(self, e, env): return self.e_cond(e, env, True) if e["k"] == "cond" else self.ev(e, env)
    def e_cond(self, e, env, lv=False):
        c = self.cond(e["c"], env)
        if c is ONE: return self.ev(e["a"], env)
        if c is ZERO: return self.ev(e["b"], env)
        ea, eb = env.copy(), env.copy()
        isthr = lambda x: x["k"] == "throw"
        if isthr(e["a"]) or isthr(e["b"]): 
            va, vb = (None if isthr(e["a"]) else self.ev(e["a"], ea)), (None if isthr(e["b"]) else self.ev(e["b"], eb))
            self.raise_(env, c if isthr(e["a"]) else pnot(c))
            return vb if va is None else va
        va, vb = self.ev(e["a"], ea), self.ev(e["b"], eb)
        if isinstance(va, Ref) and va == vb: v = va
        elif isinstance(va, Ref) and isinstance(vb, Ref) and va.t is not None and vb.t is not None and self.Ty.canon(self.Ty.cname(va.t)) == self.Ty.canon(self.Ty.cname(vb.t)) and va.root in env.d and vb.root in env.d and (lv or self.Ty.info(va.t)[0] in ("seq", "map", "rec")):
            # a reference to one of two objects
            v = Ref("either#%d" % next(TM._fresh), (), va.t)
            m = self.merge_env(c, ea, eb); env.d = m.d
            env.d[v.root] = Either(c, va, vb); env.ty[v.root] = va.t
            return v
        else:
            va, vb = self.val(va, ea), self.val(vb, eb)
            v = self.merge_val(c, va, vb)
        m = self.merge_env(c, ea, eb)
        env.d = m.d
        return v
    def may_throw(self, key, seen=None):
        """the function, or one it calls, raises explicitly"""
        seen = set() if seen is None else seen
        if key in seen: return False
        seen.add(key)
        f = self.P.functions.get(key)
        if not f or not f.get("body") or not f.get("repo"): return False
        def w(z):
            if isinstance(z, dict):
                if z.get("k") == "throw": return True
                if z.get("k") in ("call", "mcall", "ctor") and z.get("f") and self.may_throw(z["f"], seen): return True
                return any(w(v) for v in z.values() if isinstance(v, (dict, list)))
            return any(w(v) for v in z) if isinstance(z, list) else False
        return w(f["body"])
    def raise_(self, env, c, here=True):
        if here and c is not ZERO: self.leaving(env)
        env.d["#exc"] = por(env.d.get("#exc", ZERO), c)
    def e_sub(self, e, env):
        b = self.ev(e["a"], env); i = self.rv(e["b"], env)
        et = e["t"]; es = self.Ty.sort(et)
        if isinstance(b, Ref): return Ref(b.root, b.path + (("i", i, es, et),), et)
        return self.typed(at(self.val(b, env), i, es), et)
    def e_bin(self, e, env):
        op = e["op"]
        if op == ",": self.ev(e["a"], env); return self.ev(e["b"], env)
        if op in ("&&", "||"):
            a = self.cond(e["a"], env)
            if op == "&&" and a is ZERO: return ZERO
            if op == "||" and a is ONE: return ONE
            eb = env.copy()
            b = self.cond(e["b"], eb)
            if any(env.d.get(k) is not v for k, v in eb.d.items() if k in env.d):
                m = self.merge_env(a, eb if op == "&&" else env, env if op == "&&" else eb); env.d = m.d
            return pand(a, b) if op == "&&" else por(a, b)
        a, b = (Ptr(env.d["this"]) if self.isthis(x) and isinstance(env.d["this"], Ref) else self.rv(x, env) for x in (e["a"], e["b"]))
        if self.bounds and op in ("<", "<=", ">", ">="):
            # comparison after conversion of a signed number to an unsigned type
            if op in (">", ">="): x, y, xe, ye = b, a, e["b"], e["a"]
            else: x, y, xe, ye = a, b, e["a"], e["b"]
            if self.unsigned_of_signed(xe) and ispoly(x) and not self.unsigned_of_signed(ye): return pand(pnot(lt(x, ZERO)), self.binop(op, a, b, e["t"], e["a"].get("t"), env))
            if self.unsigned_of_signed(ye) and ispoly(y) and not self.unsigned_of_signed(xe): return por(lt(y, ZERO), self.binop(op, a, b, e["t"], e["a"].get("t"), env))
        return self.binop(op, a, b, e["t"], e["a"].get("t"), env)
    bounds = False
    def unsigned_of_signed(self, x):
        if not isinstance(x, dict) or x.get("k") != "cast" or x.get("ck") != "IntegralCast": return False
        f = self.Ty.cname(x["from"]) if x.get("from") is not None else ""
        return "unsigned" in self.Ty.cname(x["t"]) and "unsigned" not in f and x["a"].get("k") != "int"
    def isthis(self, x):
        while isinstance(x, dict) and x.get("k") == "cast" and "e" in x: x = x["e"]
        return isinstance(x, dict) and x.get("k") == "this"
    def binop(self, op, a, b, t, at_=None, env=None):
        if isinstance(a, (Iter, KIter)) or isinstance(b, (Iter, KIter)): return self.iterop(op, a, b, env)
        if isinstance(a, (Ptr, Poison)) or isinstance(b, (Ptr, Poison)):
            if op in ("==", "!="):
                same = isinstance(a, Ptr) and isinstance(b, Ptr) and a == b
                if isinstance(a, Ptr) and isinstance(b, Ptr) and not same:
                    if a.ref.root != b.ref.root: return ZERO if op == "==" else ONE
                    raise Unsupported("pointer comparison")
                if any(isinstance(x, T) and not (ispoly(x) and constval(x) == 0) for x in (a, b)): raise Unsupported("pointer comparison")
                r = ONE if same else ZERO
                return r if op == "==" else pnot(r)
            raise Unsupported("pointer arithmetic")
        if op in COMPARE:
            if at_ is not None and self.Ty.info(at_)[0] in ("float", "rational"): return self.fcompare(op, a, b)
            return COMPARE[op](a, b)
        if not (ispoly(a) and ispoly(b)): raise Unsupported("operator " + op)
        if op == "+": return padd(a, b)
        if op == "-": return psub(a, b)
        if op == "*": return pmul(a, b)
        i = self.Ty.info(t)
        if op == "/":
            if i[0] in ("float", "rational"): return rdiv(a, b)
            return idiv(a, b)
        if op == "%": return mod(a, b)
        if op == "<=>": return CMP(a, b)
        if op == "<<":
            c = constval(b)
            if c is not None and 0 <= c < 512: return pmul(a, const(2 ** c))
            return app("shl", (a, b), "n")
        if op in ("&", "|", "^"):
            if is_indicator(a) and is_indicator(b) and i[0] in ("bool", "int"):
                if op == "&": return pmul(a, b)
                if op == "|": return por(a, b)
                return psub(padd(a, b), pscale(pmul(a, b), 2))
            if op == "&" and constval(b) == 1: return mod(a, const(2))
            if op == "&" and constval(a) == 1: return mod(b, const(2))
            if op == "^" and i[0] == "int" and ispoly(a) and ispoly(b):
                # adding 0 or 1 changes the last bit alone
                for x, y in ((a, b), (b, a)):
                    if is_indicator(y): return padd(x, pmul(y, par(x)))
        raise Unsupported("operator " + op)
    def fcompare(self, op, a, b):
        if op == "==": return eqr(a, b)
        if op == "!=": return pnot(eqr(a, b))
        d = psub(a, b)
        c = constval(d)
        pos = lambda x: app("pos", (x,), "b")
        if c is not None:
            return ONE if {"<": c < 0, ">": c > 0, "<=": c <= 0, ">=": c >= 0}[op] else ZERO
        if op == ">": return pos(d)
        if op == "<": return pos(pneg(d))
        if op == "<=": return pnot(pos(d))
        return pnot(pos(pneg(d)))
    def e_un(self, e, env):
        op = e["op"]
        if op in ("++", "--"):
            r = self.lvalue(e["a"], env); one = ONE if op == "++" else const(-1)
            old = self.val(r, env)
            new = self.iterop("+", old, one, env) if isinstance(old, Iter) else padd(old, one)
            if not isinstance(r, Ref): raise Unsupported("increment")
            self.store(r, new, env)
            return old if e.get("post") else r
        if op == "&":
            r = self.ev(e["a"], env)
            if isinstance(r, Ref): return Ptr(r)
            if isinstance(r, (FnRef, Lam, Stream)): return r
            raise Unsupported("address of a temporary")
        if op == "*": return self.deref(self.ev(e["a"], env), env)
        v = self.rv(e["a"], env)
        if op == "-": return pneg(v)
        if op == "+": return v
        if op == "!": return pnot(self.tobool(v))
        if op == "~": return psub(pneg(v), ONE)
        raise Unsupported("unary " + op)
    def e_assign(self, e, env):
        op = e["op"]
        b = self.rv(e["b"], env)
        a = self.lvalue(e["a"], env)
        if isinstance(a, Stream): return a
        if not isinstance(a, Ref): raise Unsupported("assignment to a temporary")
        if op != "=":
            b = self.binop(op[:-1], self.load(a, env), b, e.get("ct", e["t"]), e.get("ct"), env)
        self.assign(a, b, env)
        return a
    def assign(self, ref, v, env):
        # statistics do not influence results
        if any(p[0] == "f" and p[1] in self.IGNORED_FIELDS for p in ref.path): return
        self.store(ref, v, env)
    IGNORED_FIELDS = {"timers_"}
    def e_lambda(self, e, env):
        caps = {}
        for c in e["caps"]:
            if c.get("this"): continue
            if c.get("init"): caps[c["id"]] = self.rv(c["init"], env)
            elif not c.get("byref"):
                v = env.d.get(c["id"])
                if v is None: raise Unsupported("capture")
                if isinstance(v, Ref): v = self.load(v, env)
                caps[c["id"]] = v
            else:
                # by reference: the variable itself is used
                pass
        return Lam(e, caps, env.d.get("this"))
    def e_new(self, e, env): raise Unsupported("new")
    def e_ilist(self, e, env):
        t = e["t"]; i = self.Ty.info(t)
        if i[0] == "seq":
            xs = [self.rv(x, env) for x in e["a"]]
            if i[2] is not None and len(xs) == 1 and isinstance(xs[0], T) and e["a"][0]["k"] in ("ilist", "zero") and self.Ty.info(e["a"][0].get("t", -1))[0] == "seq" and self.Ty.info(i[1])[0] != "seq":
                return xs[0]
            r = lst([x if isinstance(x, T) else self.bad() for x in xs])
            if i[2] is not None and len(xs) < i[2]:
                if not xs: return self.default(t)
                d = self.default(i[1])
                r = cat(r, *[el(d)] * (i[2] - len(xs)))
            return r
        if i[0] in ("pair", "tuple"):
            names = ("first", "second") if i[0] == "pair" else [str(k) for k in range(len(i) - 1)]
            return self.mkrec(t, [(n, ft, self.rv(x, env)) for n, ft, x in zip(names, i[1:], e["a"])])
        if i[0] == "rec":
            fs = self.Ty.allfields(self.Ty.cname(t))
            out = []
            for k, f in enumerate(fs):
                if k < len(e["a"]): v = self.rv(e["a"][k], env)
                elif "init" in f: v = self.rv(f["init"], env)
                else: v = self.default(f["t"])
                out.append((f["n"], f["t"], v))
            return self.mkrec(t, out)
        if len(e["a"]) == 1: return self.ev(e["a"][0], env)
        if not e["a"]: return self.default(t)
        raise Unsupported("initialiser list for %s" % (i,))
    def bad(self): raise Unsupported("object in a list")
    def mkrec(self, t, items):
        for n, ft, v in items:
            if not isinstance(v, T): raise Unsupported("object stored in a record")
        return rec(self.Ty.canon(self.Ty.cname(t)), None, tuple((n, self.Ty.sort(ft), v) for n, ft, v in items))
    def pair(self, t, a, b):
        i = self.Ty.info(t)
        return self.mkrec(t, [("first", i[1], a), ("second", i[2], b)])

    def maplist(self, v, i):
        if not isinstance(v, T) or v.op not in ("cat", "el"): return v
        m = MEMPTY
        for p in parts(v):
            if p.op != "el": raise Unsupported("map of a sequence")
            m = mset(m, field(p.args[0], "first", self.Ty.sort(i[1])), field(p.args[0], "second", self.Ty.sort(i[2])))
        return m
    # ------------------------------------------------------------ construction
    def e_ctor(self, e, env):
        t = e["t"]; i = self.Ty.info(t); f = self.P.functions.get(e["f"])
        a = e["a"]
        if "ostream_iterator" in self.Ty.cname(t) and not e.get("copy") and not e.get("move"):
            return OutIter(self.ev(a[0], env), self.rv(a[1], env) if len(a) > 1 else EMPTY)
        if (e.get("copy") or e.get("move")) and len(a) == 1:
            if i[0] in ("lock",): return raw("undef", "lock")
            v = self.ev(a[0], env)
            if isinstance(v, (Range_, Enum_, Lam, FnRef, OutIter)): return v
            return self.val(v, env)
        k = i[0]
        if k == "rational" : return self.ctor_rational([self.rv(x, env) for x in a], [x.get("t") for x in a])
        if k == "int":      # big integer
            v = [self.rv(x, env) for x in a[:1] if not self.isalloc(x)]
            if not v: return ZERO
            if ispoly(v[0]): return v[0]
            return app("parse_int", (v[0],), "n")
        if k == "seq": return self.ctor_seq(e, t, i, a, env)
        if k == "map":
            v = [self.rv(x, env) for x in a if not self.isalloc(x)]
            if not v: return MEMPTY
            return self.maplist(v[0], i)
        if k == "pair":
            v = [self.rv(x, env) for x in a]
            if not v: return self.default(t)
            if len(v) == 1:
                return v[0] if not isinstance(v[0], T) else rec_retype(v[0], self.Ty.cname(t))
            return self.pair(t, v[0], v[1])
        if k == "tuple":
            v = [self.rv(x, env) for x in a]
            if not v: return self.default(t)
            if len(v) == 1 and len(i) != 2: return rec_retype(v[0], self.Ty.cname(t))
            return self.mkrec(t, [(str(n), ft, x) for n, (ft, x) in enumerate(zip(i[1:], v))])
        if k in ("fn",):
            return self.ev(a[0], env) if a else Poison("empty function")
        if k == "iter":
            n = self.Ty.cname(t)
            if "regex_iterator" in n or "regex_token_iterator" in n:
                if not a: return Iter(None, ZERO)
                v = [self.rv(x, env) for x in a]
                if len(v) > 1:
                    x = self.slice_iter(v[0], v[1], env)
                    o = tuple(y for y in v[2:4] if isinstance(y, T))
                    tok = "token" in n
                    l = note_seq(app("tokens" if tok else "matches", (x,) + o, "s"), "s")
                    return Iter(self.temp(l, t, env), ZERO)
                return v[0]
            return self.rv(a[0], env) if a else Poison("iterator")
        if k == "sptr":
            return self.rv(a[0], env) if a else Poison("null")
        if k == "regex":
            n = i[1]
            if "basic_regex" in n: return self.rv(a[0], env) if a else EMPTY
            if "regex_iterator" in n or "regex_token" in n: raise Unsupported("regex iterator")
            if len(a) == 1 : return self.rv(a[0], env)
            return raw("undef", "regex")
        if k in ("lock", "time"): return raw("undef", k)
        if k == "stream":
            x = [y for y in a if self.Ty.info(y.get("t", -1))[0] == "seq"]
            return self.rv(x[0], env) if x else EMPTY
        if k == "rec":
            n = self.Ty.cname(t)
            if n.startswith("range") and f and f["cls"] == "range" if f else False:
                v = [self.rv(x, env) for x in a]
                return Range_(ZERO, v[0]) if len(v) == 1 else Range_(v[0], v[1])
            return self.construct(t, f, [self.ev(x, env) for x in a], env)
        if k == "lambda": return self.rv(a[0], env)
        if k == "lib" and "exception" in i[1] or k == "lib" and i[1].endswith("_error"): return raw("undef", "exception")
        if k == "lib" and i[1] in ("std::less", "std::greater", "std::plus", "std::multiplies"): return FnObj(i[1][5:])
        if k == "lib": 
            return raw("undef", "lib")
        raise Unsupported("construction of %s" % (i,))
    def isalloc(self, x):
        return self.Ty.cname(x.get("t", -1)).startswith("std::allocator") or self.Ty.cname(x.get("t", -1)).startswith("std::less")
    def ctor_rational(self, v, ts):
        if not v: return ZERO
        if len(v) == 1: return v[0]
        return rdiv(v[0], v[1])
    def ctor_seq(self, e, t, i, a, env):
        a = [x for x in a if not self.isalloc(x)]
        v = [self.rv(x, env) for x in a]
        if not v:
            return self.default(t)
        if len(v) == 1:
            if isinstance(v[0], Iter): raise Unsupported("sequence from one iterator")
            if isinstance(v[0], T):
                if ispoly(v[0]):
                    return self.rep(v[0], self.default(i[1]))
                return v[0]
            raise Unsupported("sequence constructor")
        if isinstance(v[0], Iter) and isinstance(v[1], Iter): return self.slice_iter(v[0], v[1], env)
        if len(v) == 2 and isinstance(v[0], T) and ispoly(v[0]) and isinstance(v[1], T):
            return self.rep(v[0], v[1])
        if len(v) >= 2 and isinstance(v[0], T) and not ispoly(v[0]) and all(ispoly(x) for x in v[1:]):
            # substring
            if len(v) == 3: return slc(v[0], v[1], padd(v[1], v[2]))
            return slc(v[0], ZERO, v[1]) if self.Ty.info(a[0].get("t"))[0] != "rec" and a[0]["k"] == "str" else slc(v[0], v[1], length(v[0]))
        raise Unsupported("sequence constructor")
    def rep(self, n, x):
        if not isinstance(x, T): raise Unsupported("list of objects")
        v = fresh("n", "i"); va = single_atom(v); set_bounds(va, ZERO, psub(n, ONE))
        return bind("cmap", n, va, el(x))
    def slice_iter(self, a, b, env):
        if a.map: raise Unsupported("range of map entries")
        if a.ref is not None and b.ref is None: b = Iter(a.ref, length(self.load(a.ref, env)), a.rev)
        if a.ref != b.ref or a.rev != b.rev: raise Unsupported("iterators of different containers")
        s = self.load(a.ref, env)
        if a.rev:
            if a.pos is ZERO and b.pos is length(s): return rev(s)
            s = rev(s)
        return note_like(slc(s, a.pos, b.pos), s)
    def construct(self, t, f, args, env):
        ref = self.temp(raw("undef", self.Ty.canon(self.Ty.cname(t))), t, env)
        self.run_ctor(f, ref, args, env)
        v = env.d.pop(ref.root)
        return v
    def run_ctor(self, f, ref, args, env):
        if f is None: raise Unsupported("constructor")
        if "body" not in f:
            if f.get("implicit") or f.get("defaulted"):
                return
            raise Unsupported("constructor without body " + f["q"])
        self.enter(f)
        try:
            self.calls.add(f["key"])
            saved = self.bind_params(f, args, env)
            old = env.d.get("this"); env.d["this"] = ref
            ty = self.Ty.canon(self.Ty.cname(ref.t))
            done = set()
            for ini in f["inits"]:
                if "base" in ini:
                    c = ini["e"]
                    if c["k"] == "ctor":
                        if c.get("copy") or c.get("move"): self.store(ref, self.rv(c["a"][0], env), env)
                        else:
                            bf = self.P.functions.get(c["f"]); self.run_ctor_base(bf, ref, c, env)
                    continue
                fr = self.fref(ref, ini["field"], ini["ft"], ty)
                v = self.ev(ini["e"], env)
                if self.Ty.info(ini["ft"])[0] in ("time", "lock"): continue
                if isinstance(v, Ref) and self.Ty.isref(ini["ft"]): raise Unsupported("reference member")
                self.store(fr, self.val(v, env), env)
                done.add(ini["field"])
            # members without any initialiser
            cls = self.Ty.recs.get(f.get("cls")) or self.Ty.recs.get(self.Ty.cname(f.get("clst", -1)))
            if cls:
                for fd in cls["fields"]:
                    if fd["n"] not in done and not any(x.get("field") == fd["n"] for x in f["inits"]):
                        if "init" in fd: self.store(self.fref(ref, fd["n"], fd["t"], ty), self.rv(fd["init"], env), env)
            o = self.exec(f["body"], env)
            self.finish(f, o, env)
            if old is None: env.d.pop("this", None)
            else: env.d["this"] = old
            self.restore(saved, env)
        finally: self.leave()
    def run_ctor_base(self, bf, ref, c, env):
        self.run_ctor(bf, ref, [self.ev(x, env) for x in c["a"]], env)

    # ------------------------------------------------------------ calls
    def enter(self, f):
        if len(self.stack) > self.maxdepth: raise Unsupported("call depth")
        if f is not None and any(g is f for g in self.stack): raise Unsupported("recursion " + f["q"])
        self.stack.append(f)
    def leave(self): self.stack.pop()
    def bind_params(self, f, args, env):
        saved = {}
        ps = f["params"]
        if len(args) < len(ps): raise Unsupported("missing arguments for " + f.get("q", "lambda"))
        for p, x, in zip(ps, args):
            pid = p["id"]; t = p["t"]
            if pid in env.d: saved[pid] = env.d[pid]
            env.ty[pid] = t
            if self.Ty.isref(t):
                if isinstance(x, (MElem, Lam, FnRef, Range_, Enum_, tuple, Stream, Poison)): env.d[pid] = x
                else: env.d[pid] = self.asref(x, self.Ty.strip(t), env)
            else:
                env.d[pid] = x if isinstance(x, (Lam, FnRef, Ptr, Range_, Enum_, Stream, Poison)) else self.slice(self.val(x, env), t)
        return saved
    def restore(self, saved, env):
        env.d.update(saved)
    def finish(self, f, o, env):
        """collect the outcomes of a function body into env; returns the value"""
        rest = {}
        thr = ZERO
        for kk, (c, e, v) in o.items():
            if kk == "t": thr = c
            elif kk == "n": self.add_out(rest, "r", c, e, v)
            elif kk == "r": self.add_out(rest, "r", c, e, v)
            else: raise Unsupported("stray " + kk)
        if "r" in rest:
            c, e, v = rest["r"]
            env.d = e.d
        else: v = Poison("function always throws")
        if thr is not ZERO: self.raise_(env, thr, False)
        return v
    def inline(self, f, this, args, env):
        if "body" not in f: raise Unsupported("no body: " + f["q"])
        self.enter(f)
        try:
            self.calls.add(f["key"])
            before = set(env.d)
            exc0 = env.d.get("#exc", ZERO); env.d["#exc"] = ZERO
            saved = self.bind_params(f, args, env)
            old = env.d.get("this")
            if this is not None: env.d["this"] = this
            o = self.exec(f["body"], env)
            v = self.finish(f, o, env)
            if old is None: env.d.pop("this", None)
            else: env.d["this"] = old
            self.restore(saved, env)
            if exc0 is not ZERO: self.raise_(env, exc0, False)
            # a by-value result must not refer to dead locals
            keep = set()
            if isinstance(v, (Ref, Iter, Ptr, MElem, KIter)):
                r = v.ref if not isinstance(v, Ref) else v
                keep.add(r.root)
            for k in list(env.d):
                if k not in before and k not in keep and not (isinstance(k, str) and (k.startswith("tmp#") or k in ("#exc", "osi"))): del env.d[k]
            return v
        finally: self.leave()
    def call_lam(self, lam, args, env):
        """call a function object"""
        if isinstance(lam, Ref): lam = self.load(lam, env)
        if isinstance(lam, FnRef):
            f = self.P.functions[lam.usr]
            return self.call_fn(f, lam.obj, args, env, None)
        if isinstance(lam, Lam):
            n = lam.node
            params = n.get("params"); body = n.get("body")
            if n.get("generic"):
                inst = n.get("inst") or []
                if len(inst) < 1: raise Unsupported("generic lambda")
                params, body = inst[0]["params"], inst[0]["body"]
            f = {"q": "lambda", "params": params, "body": body, "ret": n.get("ret", -1), "key": "lambda"}
            self.enter(None); self.stack[-1] = f
            try:
                before = set(env.d)
                exc0 = env.d.get("#exc", ZERO); env.d["#exc"] = ZERO
                capsaved = {k: env.d[k] for k in lam.caps if k in env.d}
                for k, v in lam.caps.items(): env.d[k] = v
                saved = self.bind_params(f, args, env)
                old = env.d.get("this")
                if lam.this is not None: env.d["this"] = lam.this
                o = self.exec(body, env)
                v = self.finish(f, o, env)
                if old is None: env.d.pop("this", None)
                else: env.d["this"] = old
                for k in lam.caps:
                    if n.get("mutable"): raise Unsupported("mutable lambda")
                    env.d.pop(k, None)
                env.d.update(capsaved); self.restore(saved, env)
                if exc0 is not ZERO: self.raise_(env, exc0, False)
                for k in list(env.d):
                    if k not in before and not (isinstance(k, str) and (k.startswith("tmp#") or k in ("#exc", "osi"))):
                        if isinstance(v, Ref) and v.root == k: continue
                        del env.d[k]
                return v
            finally: self.leave()
        if isinstance(lam, T):
            return None
        raise Unsupported("call of " + type(lam).__name__)
    def e_call(self, e, env):
        if "f" not in e or e["f"] is None:
            fp = self.ev(e["fp"], env)
            return self.call_value(fp, [self.ev(x, env) for x in e["a"]], e, env)
        f = self.P.functions[e["f"]]
        q = f["q"]
        if e.get("op") == "<<" and self.Ty.info(e["t"])[0] == "stream": return self.stream_out(e, env)
        return self.call_fn(f, None, None, env, e)
    def stream_out(self, e, env):
        args = ([e["o"]] if "o" in e else []) + e["a"]
        s = self.ev(args[0], env)
        if isinstance(s, Stream) and s.ref is None: return s
        if not isinstance(s, Ref): raise Unsupported("output stream")
        f = self.P.functions[e["f"]]
        if f.get("repo"): return self.call_fn(f, None, [s, self.ev(args[1], env)], env, e)
        x = args[1]; t = x.get("t", -1)
        if x["k"] in ("fref", "ref") and x.get("n") in ("endl", "flush", "ends") or x["k"] == "fref":
            n = self.P.functions[x["f"]]["n"] if x["k"] == "fref" else x["n"]
            if n == "endl": self.append(s, strlit("\n"), env)
            elif n not in ("flush", "fixed", "scientific"): raise Unsupported("stream manipulator " + n)
            return s
        v = self.rv(x, env); i = self.Ty.info(t)[0]
        if not isinstance(v, T): raise Unsupported("output of an object")
        if i == "seq": self.append(s, v, env)
        elif i == "int" and self.P.types[self.Ty.strip(t)].get("char"): self.append(s, el(v), env)
        elif i == "float": self.append(s, note_seq(app("to_string_g", (v,), "s"), "n"), env)
        elif i == "ptr": self.append(s, v, env)
        elif ispoly(v): self.append(s, self.tostr(v), env)
        else: raise Unsupported("output of %s" % i)
        return s
    def append(self, s, v, env):
        self.store(s, note_seq(cat(self.load(s, env), v), "n"), env)
    def m_stream(self, n, o, e, ot, env):
        if isinstance(o, Stream): return o
        if n == "str":
            if not e["a"]: return self.load(o, env)
            self.store(o, self.rv(e["a"][0], env), env); return None
        if n == "clear": return None
        raise Unsupported("stream::" + n)
    def call_value(self, fp, args, e, env):
        if isinstance(fp, Ref): fp = self.load(fp, env)
        if isinstance(fp, T):
            vs = tuple(self.tval(self.val(x, env)) for x in args)
            so = self.Ty.sort(e["t"])
            return self.typed(app("apply", (fp,) + vs, so), e["t"])
        return self.call_lam(fp, args, env)
    def tval(self, x):
        if isinstance(x, T): return x
        raise Unsupported("object argument " + type(x).__name__)
    def e_mcall(self, e, env):
        if "f" not in e or e["f"] is None: raise Unsupported("member pointer call")
        f = self.P.functions[e["f"]]
        if e.get("op") == "<<" and self.Ty.info(e["t"])[0] == "stream": return self.stream_out(e, env)
        ot = e["o"].get("t", -1)
        i = self.Ty.info(ot)
        if e.get("arrow") and i[0] in ("ptr", "sptr"):
            ot = i[1]; i = self.Ty.info(ot)
        k = i[0]
        if k in ("lambda", "fn") and f["n"] == "operator()":
            fo = self.ev(e["o"], env)
            return self.call_value(fo, [self.ev(x, env) for x in e["a"]], e, env)
        if k in ("time",): return self.opaque_time(e)
        if k == "stream": return self.m_stream(f["n"], self.ev(e["o"], env), e, ot, env)
        o = self.ev(e["o"], env)
        if isinstance(o, Poison): raise Unsupported(o.why)
        if e.get("arrow"): o = self.deref(o, env)
        m = {"seq": self.m_seq, "map": self.m_map, "iter": self.m_iter, "rational": self.m_rational, "sptr": self.m_sptr, "future": self.m_future,
             "regex": self.m_regex, "int": self.m_bigint, "pair": self.m_pair, "tuple": self.m_pair}.get(k)
        if m is not None and not (f.get("repo") and "body" in f and k not in ("rational",)):
            return m(f["n"], o, e, ot, env)
        if k == "rec" and f["n"] == "operator=" and not f.get("userbody") and (f.get("defaulted") or f.get("implicit") or "body" not in f or f.get("defaulted")):
            v = self.rv(e["a"][0], env); self.assign(o, v, env); return o
        if k == "rec" or f.get("repo"): return self.call_fn(f, o, None, env, e)
        if k == "lib" and i[1].endswith("_Bit_reference"):
            if f["n"] == "operator=":
                v = self.rv(e["a"][0], env); self.assign(o, v, env); return o
            if f["n"] == "flip": self.assign(o, pnot(self.load(o, env)), env); return None
            return self.val(o, env)
        if f["n"] == "operator bool" and isinstance(o, T): return o
        if k == "lib" : raise Unsupported("library class " + i[1] + "::" + f["n"])
        raise Unsupported("method %s of %s" % (f["n"], i))
    def opaque_time(self, e):
        return sym("time", self.Ty.sort(e["t"]))
    def call_fn(self, f, obj, args, env, e):
        q = f["q"]
        self.used.add(q)
        if "params" not in f:
            g = [x for x in self.byq.get(q, []) if "body" in x and [self.Ty.cname(p["t"]) for p in x["params"]] == [self.Ty.cname(t) for t in f.get("ptypes", [])]]
            if g: f = g[0]
        if not f.get("repo"):
            return self.library(f, q, e, env)
        h = self.special(f, q, obj, args, env, e)
        if h is not NotImplemented: return h
        if args is None: args = [self.ev(x, env) for x in e["a"]]
        if f.get("op") == "=" and f.get("method") and (f.get("defaulted") or f.get("implicit")):
            v = self.val(args[0], env); self.assign(obj, v, env); return obj
        if self.printonly(f): return None
        if f["n"] in ("operator!=", "operator>", "operator<=", "operator>=") and self.is_anchor(f):
            # each comparison has a specification of its own in terms of == and <
            ops = ([obj] if f.get("method") else []) + list(args)
            ps = ([f["clst"]] if f.get("method") else []) + [p["t"] for p in f["params"]]
            i = self.Ty.info(ps[0]) if ps else ("",)
            if len(ops) == 2 and i[0] == "rec" and self.Ty.info(ps[1])[:2] == i[:2]:
                base = "operator==" if f["n"] == "operator!=" else "operator<"
                x, y = [self.tval(self.val(o, env)) for o in ops]
                if f["n"] in ("operator>", "operator<="): x, y = y, x
                r = self.user_cmp(base, i, x, y, env, lambda a, b: None)
                if r is not None: return r if f["n"] == "operator>" else pnot(r)
        if self.is_anchor(f) or any(g is f for g in self.stack): return self.opaque(f, obj, args, env, e)
        if obj is not None and not isinstance(obj, (Ref,)) : obj = self.asref(obj, f.get("clst", -1), env)
        return self.inline(f, obj, args, env)
    opened = frozenset()
    def is_anchor(self, f):
        if "::" in f["q"] and f["q"] in self.opened: return False
        return f["q"] in self.anchors or f["n"] in self.anchors or self.sig(f) in self.anchors
    def sig(self, f): return "%s(%s)" % (f["q"], ", ".join(self.Ty.cname(p["t"]) for p in f["params"])) if "params" in f else "%s(%s)" % (f["q"], ", ".join(self.Ty.cname(t) for t in f.get("ptypes", [])))
    def opname(self, f):
        """name of an operation; comparisons of objects have one name each, however they are spelled"""
        if f["n"] in ("operator<", "operator=="):
            ps = ([f["clst"]] if f.get("method") else []) + [p["t"] for p in f.get("params", [])]
            return f["n"] + " of " + self.Ty.canon(self.Ty.cname(ps[0])).split("::")[-1] if ps else f["n"]
        return f["q"] if len({self.sig(g) for g in self.byq.get(f["q"], [])}) == 1 else self.sig(f)
    def printonly(self, f):
        """a void const function without modifiable arguments cannot influence any result"""
        return f.get("ret", -1) >= 0 and self.Ty.info(f["ret"])[0] == "void" and f.get("constm") and all(not self.Ty.isref(p["t"]) or self.Ty.isconst(p["t"]) for p in f["params"])
    def opaque(self, f, obj, args, env, e):
        """call of a function that is analysed on its own: an uninterpreted operation on the values it can read"""
        self.calls.add(f["key"])
        vals = []; outs = []
        if obj is not None and f.get("method") and not f.get("static"):
            vals.append(self.tval(self.val(obj, env)))
            # a comparison that modified its operand would break its own obligation
            if not f.get("constm") and isinstance(obj, Ref) and f["n"] not in COMPARISONS: outs.append(("this", obj, f.get("clst", obj.t)))
        for p, x in zip(f["params"], args):
            v = self.val(x, env)
            if isinstance(v, (Lam, FnRef)): v = self.lamterm(v, env)
            if isinstance(v, Iter): raise Unsupported("iterator argument")
            if v is None or isinstance(v, (Ptr, Poison)): raise Unsupported("object argument")
            vals.append(self.slice(self.tval(v), p["t"]))
            if self.Ty.isref(p["t"]) and not self.Ty.isconst(p["t"]) and isinstance(x, Ref) and not self.Ty.isrref(p["t"]) and self.may_write(f, f["params"].index(p)): outs.append((str(f["params"].index(p)), x, p["t"]))
        name = self.opname(f)
        vals = tuple(vals)
        if self.initial is not None and self.may_throw(f["key"]): self.leaving(env)
        for tag, ref, t in outs:
            if t is None or t < 0: t = ref.t
            so = self.Ty.sort(t)
            self.store(ref, self.typed(app(name + "!" + tag, vals, so), t), env)
        rt = f.get("ret", -1)
        if rt < 0 or self.Ty.info(rt)[0] == "void": return None
        if self.Ty.isref(rt) and obj is not None and isinstance(obj, Ref) and not f.get("constm") and self.Ty.canon(self.Ty.cname(rt)) == self.Ty.canon(self.Ty.cname(f.get("clst", -1))): return obj
        if self.Ty.info(rt)[0] in ("iter", "ptr", "fn"): raise Unsupported("opaque iterator")
        return self.typed(app(name, vals, self.Ty.sort(rt)), rt)
    ACCESS = {"operator[]", "at", "begin", "end", "front", "back", "size", "empty", "find", "count", "cbegin", "cend", "rbegin", "rend", "operator*", "operator->", "length", "data"}
    def may_write(self, f, k):
        """may f modify what its k-th parameter (a non-const reference) refers to?  Flow-insensitive, interprocedural"""
        if not hasattr(self, "_mw"): self._mw = {}
        key = (f["key"], k)
        if key in self._mw: return self._mw[key]
        self._mw[key] = True
        if "body" not in f: return True
        roots = {f["params"][k]["id"]}
        def base(e):
            while isinstance(e, dict):
                kd = e.get("k")
                if kd == "ref": return e["id"]
                if kd == "member": e = e["b"]
                elif kd == "sub": e = e["a"]
                elif kd == "mcall" and e.get("o") and (self.mname(e) in self.ACCESS): e = e["o"]
                elif kd in ("cast", "un"): e = e["a"]
                else: return None
            return None
        hit = [False]
        def walk(o):
            if isinstance(o, list):
                for x in o: walk(x)
                return
            if not isinstance(o, dict): return
            kd = o.get("k")
            if kd in ("assign",) and base(o.get("a")) in roots: hit[0] = True
            if kd == "un" and o.get("op") in ("++", "--", "&") and base(o.get("a")) in roots: hit[0] = True
            if kd in ("mcall", "call", "ctor", "new"):
                g = self.P.functions.get(o.get("f")) if o.get("f") else None
                if kd == "mcall" and base(o.get("o")) in roots and self.mname(o) not in self.ACCESS and not (g and g.get("constm")): hit[0] = True
                for j, a in enumerate(o.get("a") or []):
                    if base(a) in roots:
                        if g and "params" in g and j < len(g["params"]):
                            t = g["params"][j]["t"]
                            if not self.Ty.isref(t) or self.Ty.isconst(t): continue
                            if self.may_write(g, j): hit[0] = True
                        elif g and "ptypes" in g and j < len(g["ptypes"]):
                            t = g["ptypes"][j]
                            if not self.Ty.isref(t) or self.Ty.isconst(t): continue
                            hit[0] = True
                        else: hit[0] = True
            if kd in ("decl",):
                for v in o["a"]:
                    if isinstance(v, dict) and "t" in v and self.Ty.isref(v["t"]) and not self.Ty.isconst(v["t"]) and base(v.get("init")) in roots and v.get("id"): roots.add(v["id"])
            if kd == "rfor": 
                v = o.get("var")
                if isinstance(v, dict) and "t" in v and self.Ty.isref(v["t"]) and not self.Ty.isconst(v["t"]) and base(o.get("range")) in roots and v.get("id"): roots.add(v["id"])
            for x in o.values():
                if isinstance(x, (dict, list)): walk(x)
        n0 = -1
        while n0 != len(roots):
            n0 = len(roots); walk(f["body"])
        self._mw[key] = hit[0]
        return hit[0]
    def mname(self, e):
        g = self.P.functions.get(e.get("f")) if e.get("f") else None
        return g["n"] if g else e.get("n", "")
    def lamterm(self, lam, env, sorts=None):
        """a function object as a term (bound parameters)"""
        if isinstance(lam, FnRef): 
            return app("fn:" + self.P.functions[lam.usr]["q"], (), "s")
        n = lam.node
        ps = n.get("params") or []
        vs = [self.symfresh(p["t"]) for p in ps]
        e2 = env.copy()
        r = self.call_lam(lam, list(vs), e2)
        r = self.val(r, e2)
        if not isinstance(r, T): raise Unsupported("function object")
        ats = [single_atom(v) if ispoly(v) else v for v in vs]
        return mkmulti("lam", ats, [a.args[1] for a in ats], (), r, ("s",))
    def symfresh(self, t):
        so = self.Ty.sort(t)
        v = fresh(so, "x")
        return self.typed(v, t)
    def find_method(self, t, name):
        n = self.Ty.cname(t)
        for u, f in self.P.functions.items():
            if f["n"] == name and f.get("method") and f.get("clst", -1) >= 0 and self.Ty.canon(self.Ty.cname(f["clst"])) == self.Ty.canon(n) and "body" in f and not f["params"]:
                return f
        return None
    def special(self, f, q, obj, args, env, e):
        n = f["n"]
        if n == "enumerate" and len(f["params"]) == 1:
            r = self.ev(e["a"][0], env) if args is None else args[0]
            r = self.asref(r, self.Ty.strip(f["params"][0]["t"]), env)
            return Enum_(r, self.Ty.strip(f["params"][0]["t"]))
        if self.inline_rational is False and f["params"] and any(self.Ty.info(p["t"])[0] == "rational" for p in f["params"]) and f.get("op") and not f.get("method"):
            a = [self.rv(x, env) for x in e["a"]] if args is None else [self.val(x, env) for x in args]
            if all(isinstance(x, T) and ispoly(x) for x in a) and all(self.Ty.info(p["t"])[0] in ("rational", "int") for p in f["params"]): return self.rational_op(f["op"], a)
        if n == "make_rational_from_str": 
            a = [self.rv(x, env) for x in e["a"]] if args is None else [self.val(x, env) for x in args]
            return app("make_rational_from_str", tuple(a), "q")
        if n == "join" and len(f["params"]) == 2 and not f.get("method"):
            a = [self.rv(x, env) for x in e["a"]] if args is None else [self.val(x, env) for x in args]
            if all(isinstance(x, T) for x in a):
                ps = TM.parts(a[0])
                if all(p.op == "el" for p in ps):
                    out = []
                    for k, p in enumerate(ps):
                        if k: out.append(a[1])
                        out.append(p.args[0])
                    return note_seq(cat(*out), "n") if out else EMPTY
            args = a
            return self.opaque(f, obj, args, env, e) if self.is_anchor(f) else NotImplemented
        if n == "get_osi": return Ptr(self.registry(env))
        if self.lin:
            if n == "add_to_map" and len(f["params"]) == 3:
                a = [self.ev(x, env) for x in e["a"]] if args is None else args
                k, v = self.slice(self.tval(self.val(a[1], env)), f["params"][1]["t"]), self.val(a[2], env)
                if isinstance(a[0], Ref) and isinstance(k, T) and isinstance(v, T) and ispoly(v):
                    self.store(a[0], lin(padd(tolin(self.load(a[0], env)), pmul(v, basis(k)))), env)
                    return None
            if self.lin == 2 and f.get("method") and q.startswith("Algebra<"): return self.algebra(f, n, obj, args, env, e)
        return NotImplemented
    lin = 2
    def algebra(self, f, n, obj, args, env, e):
        """linear combinations with their vector-space operations as interpreted operations"""
        if n not in ("add", "operator+=", "operator-=", "operator*=", "operator/=", "operator+", "operator-"): return NotImplemented
        ps = f["params"]
        mt = None
        for fd in self.Ty.allfields(self.Ty.cname(f["clst"])):
            if fd["n"] == "terms_": mt = fd["t"]
        if mt is None: return NotImplemented
        ty = self.Ty.canon(self.Ty.cname(f["clst"]))
        a = [self.ev(x, env) for x in e["a"]] if args is None else args
        a = [self.slice(self.val(x, env), p["t"]) for x, p in zip(a, ps)] + [self.val(x, env) for x in a[len(ps):]]
        if not all(isinstance(x, T) for x in a): raise Unsupported("algebra argument")
        if isinstance(obj, Ref): loc = self.fref(Ref(obj.root, obj.path, obj.t), "terms_", mt, ty); cur = tolin(self.load(loc, env))
        else: loc = None; cur = tolin(field(self.tval(self.val(obj, env)), "terms_", "s"))
        def terms(x): return tolin(field(x, "terms_", "s"))
        def new(p): return rec(ty, None, (("terms_", "s", lin(p)),))
        k0 = self.Ty.info(ps[0]["t"]) if ps else None
        if n == "operator-" and not ps: return new(pneg(cur))
        if n == "operator+" and ps: return new(padd(cur, terms(a[0])))
        if n == "operator-" and ps: return new(psub(cur, terms(a[0])))
        if loc is None: return NotImplemented
        if n == "add" and len(ps) == 2: r = padd(cur, pmul(a[1], basis(a[0])))
        elif n == "add" and len(ps) == 1 and k0[0] == "rec" and k0[1] != ty: r = padd(cur, basis(a[0]))
        elif n in ("operator+=", "operator-="):
            if k0[0] == "pair":
                x = pmul(field(a[0], "second", self.Ty.sort(k0[2])), basis(self.typed(field(a[0], "first", self.Ty.sort(k0[1])), k0[1])))
            elif k0[0] == "rec": x = terms(a[0])
            else: return NotImplemented
            r = padd(cur, x) if n == "operator+=" else psub(cur, x)
        elif n == "operator*=":
            if k0[0] == "rational": r = pmul(cur, a[0])
            else: r = atom(raw("linof", app("emul", (lin(cur), lin(terms(a[0]))), "s")))
        elif n == "operator/=" and k0[0] == "rational":
            self.raise_(env, eqr(a[0], ZERO)); r = rdiv(cur, a[0])
        else: return NotImplemented
        self.store(loc, lin(r), env)
        return None if n == "add" else obj
    def rational_op(self, op, a):
        if len(a) == 1: return pneg(a[0]) if op == "-" else a[0]
        x, y = a
        if op == "+": return padd(x, y)
        if op == "-": return psub(x, y)
        if op == "*": return pmul(x, y)
        if op == "/": return rdiv(x, y)
        if op == "==": return eqr(x, y)
        if op == "!=": return pnot(eqr(x, y))
        return self.fcompare(op, x, y)
    def m_rational(self, n, o, e, ot, env):
        if n in ("operator+=", "operator-=", "operator*=", "operator/="):
            v = self.rv(e["a"][0], env)
            self.assign(o, self.rational_op(n[8], [self.load(o, env), v]), env); return o
        if n == "operator=":
            v = self.rv(e["a"][0], env); self.assign(o, v, env); return o
        v = self.val(o, env)
        a = tuple(self.rv(x, env) for x in e["a"])
        return self.typed(app("rational::" + n, (v,) + a, self.Ty.sort(e["t"])), e["t"])
    def m_bigint(self, n, o, e, ot, env):
        if n == "operator=":
            v = self.rv(e["a"][0], env); self.assign(o, v, env); return o
        if n in ("operator+=", "operator-=", "operator*=", "operator/=", "operator%="):
            v = self.rv(e["a"][0], env); op = n[8]; x = self.load(o, env)
            self.assign(o, {"+": padd, "-": psub, "*": pmul, "/": idiv, "%": mod}[op](x, v), env); return o
        v = self.val(o, env)
        if n.startswith("operator ") or n == "convert_to":
            return v
        a = tuple(self.rv(x, env) for x in e["a"])
        return self.typed(app("bigint::" + n, (v,) + a, self.Ty.sort(e["t"])), e["t"])
    def m_sptr(self, n, o, e, ot, env):
        v = self.val(o, env) if isinstance(o, Ref) else o
        if isinstance(v, Ptr): return v if n in ("operator->", "get") else v.ref
        raise Unsupported("smart pointer")
    def m_future(self, n, o, e, ot, env):
        if n in ("get",): return self.val(o, env)
        if n in ("wait", "valid"): return None
        if n == "operator=": self.assign(o, self.rv(e["a"][0], env), env); return o
        raise Unsupported("future::" + n)
    def m_pair(self, n, o, e, ot, env):
        if n == "operator=" and isinstance(o, Tie):
            v = self.rv(e["a"][0], env)
            if not isinstance(v, T) or not all(isinstance(r, Ref) for r in o.refs): raise Unsupported("assignment to std::tie")
            i = self.Ty.info(e["a"][0].get("t")); names = ("first", "second") if i[0] == "pair" else [str(k) for k in range(len(o.refs))]
            vs = [field(v, m, self.Ty.sort(r.t)) for m, r in zip(names, o.refs)]
            for r, w in zip(o.refs, vs): self.assign(r, w, env)
            return o
        if n == "operator=":
            v = self.rv(e["a"][0], env); self.assign(o, rec_retype(v, self.Ty.cname(ot)), env); return o
        raise Unsupported("pair::" + n)
    def m_regex(self, n, o, e, ot, env):
        v = self.val(o, env)
        a = tuple(self.tval(self.rv(x, env)) for x in e["a"])
        if n in ("str", "operator[]"):
            k = a[0] if a else ZERO
            if n == "str" and self.Ty.info(ot)[1].endswith("sub_match"): return v
            return note_seq(app("group", (v, k), "s"), "n")
        if n == "operator=": self.assign(o, a[0], env); return o
        if n.startswith("operator ") or n == "operator basic_string": return v
        return self.typed(app("regex::" + n, (v,) + a, self.Ty.sort(e["t"])), e["t"])

    # ------------------------------------------------------------ sequences
    def begin(self, o, t): return Iter(o, ZERO)
    def m_seq(self, n, o, e, ot, env):
        if isinstance(o, T): o = self.temp(o, ot, env)
        if isinstance(o, MElem) or not isinstance(o, Ref): raise Unsupported("sequence object")
        i = self.Ty.info(ot); et = i[1]; es = self.Ty.sort(et)
        if o.t is None or self.Ty.info(o.t)[0] != "seq": o = Ref(o.root, o.path, ot)
        A = lambda k: self.rv(e["a"][k], env)
        na = len([x for x in e["a"] if not self.isalloc(x)])
        s = self.load(o, env)
        if not isinstance(s, T): raise Unsupported("sequence value")
        if n in ("size", "length"): return length(s)
        if n == "empty": return eqi(length(s), ZERO)
        if n in ("begin", "cbegin", "data"): return Iter(o, ZERO)
        if n in ("end", "cend"): return Iter(o, length(s))
        if n in ("rbegin", "crbegin"): return Iter(o, ZERO, True)
        if n in ("rend", "crend"): return Iter(o, length(s), True)
        if n in ("operator[]", "at"): 
            if n == "at" and self.bounds:
                i = A(0); self.raise_(env, por(lt(i, ZERO), pnot(lt(i, length(s)))))
            return Ref(o.root, o.path + (("i", A(0), es, et),), et)
        if n == "front": return Ref(o.root, o.path + (("i", ZERO, es, et),), et)
        if n == "back": return Ref(o.root, o.path + (("i", psub(length(s), ONE), es, et),), et)
        if n in ("push_back", "emplace_back"):
            v = self.build_elem(et, e["a"], env)
            s = self.load(o, env)
            r = note_seq(cat(s, el(v)), es); self.store(o, r, env)
            return Ref(o.root, o.path + (("i", psub(length(r), ONE), es, et),), et) if n == "emplace_back" else None
        if n == "pop_back": self.store(o, slc(s, ZERO, psub(length(s), ONE)), env); return None
        if n == "clear": self.store(o, EMPTY, env); return None
        if n == "operator=":
            v = A(0)
            if isinstance(v, T) and ispoly(v): v = el(v)
            self.store(o, v, env); return o
        if n in ("operator+=", "append"):
            v = A(0)
            if na == 2 and isinstance(v, Iter): v = self.slice_iter(v, A(1), env)
            elif na == 2 and ispoly(v): v = self.rep(v, A(1))
            elif ispoly(v): v = el(v)
            elif na != 1: raise Unsupported("append")
            self.store(o, note_seq(cat(s, v), es), env); return o
        if n == "insert":
            p = A(0)
            if isinstance(p, Iter) and not p.rev:
                pos = p.pos
                if na == 3 and self.Ty.info(e["a"][1].get("t"))[0] == "iter":
                    x, y = A(1), A(2); mid = self.slice_iter(x, y, env)
                elif na == 3: mid = self.rep(A(1), A(2))
                else:
                    v = A(1)
                    it = self.Ty.info(e["a"][1].get("t"))
                    mid = v if it[0] == "seq" and (self.Ty.info(et)[0] != "seq" or e["a"][1].get("k") == "ilist") else el(v)
                r = note_seq(cat(slc(s, ZERO, pos), mid, slc(s, pos, length(s))), es)
                self.store(o, r, env); return Iter(o, pos)
            raise Unsupported("insert")
        if n == "erase":
            p = A(0)
            if isinstance(p, Iter):
                q = A(1).pos if na == 2 else padd(p.pos, ONE)
                r = note_seq(cat(slc(s, ZERO, p.pos), slc(s, q, length(s))), es)
                self.store(o, r, env); return Iter(o, p.pos)
            raise Unsupported("erase")
        if n == "resize":
            m = A(0); d = A(1) if na == 2 else self.default(et)
            ln = length(s)
            if s is EMPTY: self.store(o, self.rep(m, d), env); return None
            g = leq(ln, m)
            r = ite(g, cat(s, self.rep(psub(m, ln), d)), slc(s, ZERO, m))
            self.store(o, note_seq(r, es), env); return None
        if n in ("reserve", "shrink_to_fit"):
            return None
        if n == "assign":
            if na == 2:
                x = A(0)
                r = self.slice_iter(x, A(1), env) if isinstance(x, Iter) else self.rep(x, A(1))
            else: r = A(0)
            self.store(o, r, env); return None
        if n == "fill": self.store(o, self.rep(length(s), A(0)), env); return None
        if n == "substr":
            p = A(0); c = A(1) if na > 1 else None
            if c is None or (constval(c) is not None and constval(c) > 2 ** 40): return slc(s, p, length(s))
            return slc(s, p, padd(p, c))
        if n == "swap":
            b = self.ev(e["a"][0], env); v = self.load(b, env); self.store(b, s, env); self.store(o, v, env); return None
        if n == "compare": return CMP(s, A(0))
        if n in ("c_str", "str"): return s
        if n in ("find", "rfind", "find_first_of", "find_first_not_of", "find_last_of", "find_last_not_of", "starts_with", "ends_with", "contains"):
            return app("str." + n, tuple([s] + [A(k) for k in range(na) if constval(A(k)) != 0 or k == 0]), self.Ty.sort(e["t"]))
        raise Unsupported("sequence method " + n)
    def build_elem(self, et, a, env):
        i = self.Ty.info(et)
        vs = [self.ev(x, env) for x in a]
        if len(vs) == 1:
            v = self.val(vs[0], env)
            if isinstance(v, T):
                if i[0] == "pair" and v.op == "rec": return rec_retype(v, self.Ty.cname(et))
                if self.same_kind(a[0].get("t"), et): return v
        if i[0] == "pair" and len(vs) == 2: return self.pair(et, self.val(vs[0], env), self.val(vs[1], env))
        if i[0] == "tuple": return self.mkrec(et, [(str(n), ft, self.val(x, env)) for n, (ft, x) in enumerate(zip(i[1:], vs))])
        if i[0] in ("int", "rational", "bool", "enum"):
            if i[0] == "rational": return self.ctor_rational([self.val(x, env) for x in vs], None)
            return self.val(vs[0], env)
        if i[0] == "seq":
            if not vs: return self.default(et)
            v = [self.val(x, env) for x in vs]
            if len(v) == 2 and ispoly(v[0]): return self.rep(v[0], v[1])
            if len(v) == 2 and isinstance(v[0], Iter): return self.slice_iter(v[0], v[1], env)
            if len(v) == 1: return self.rep(v[0], self.default(i[1])) if ispoly(v[0]) else v[0]
        if i[0] == "rec":
            c = self.find_ctor(et, a)
            if c is not None: return self.construct(et, c, vs, env)
        if len(vs) == 1:
            v = self.val(vs[0], env)
            if isinstance(v, T): return v
        raise Unsupported("emplace_back")
    def same_kind(self, t1, t2): return self.Ty.canon(self.Ty.cname(t1)) == self.Ty.canon(self.Ty.cname(t2)) or (self.Ty.info(t2)[0] in ("int", "bool", "enum", "float", "rational") and self.Ty.info(t1)[0] in ("int", "bool", "enum", "rational", "float"))
    def find_ctor(self, t, a):
        n = self.Ty.cname(t)
        best = None
        for u, f in self.P.functions.items():
            if f.get("ctor") and f.get("clst", -1) >= 0 and self.Ty.cname(f["clst"]) == n and "body" in f and len(f["params"]) == len(a):
                if all(self.ctor_ok(p["t"], x.get("t", -1)) for p, x in zip(f["params"], a)): best = f
        return best
    def ctor_ok(self, pt, at_):
        a, b = self.Ty.info(pt), self.Ty.info(at_)
        if a[0] != b[0]: return a[0] in ("int", "bool", "enum") and b[0] in ("int", "bool", "enum") or a[0] == "rational" and b[0] == "int" or (a[0] == "seq" and b[0] in ("seq", "ptr"))
        if a[0] == "rec": return a[1] == b[1]
        return True

    # ------------------------------------------------------------ maps
    def m_map(self, n, o, e, ot, env):
        if isinstance(o, T): o = self.temp(o, ot, env)
        i = self.Ty.info(ot); kt, vt = i[1], i[2]; vs = self.Ty.sort(vt)
        if not isinstance(o, Ref): raise Unsupported("map object")
        if o.t is None or self.Ty.info(o.t)[0] != "map": o = Ref(o.root, o.path, ot)
        if any(p[0] == "f" and p[1] in self.IGNORED_FIELDS for p in o.path):
            return self.temp(self.default(vt), vt, env) if n in ("operator[]", "at") else self.opaque_time(e)
        m = self.load(o, env)
        na = len([x for x in e["a"] if not self.isalloc(x)])
        A = lambda k: self.tval(self.rv(e["a"][k], env))
        if n == "operator[]":
            k = A(0)
            h = mhas(m, k)
            if h is not ONE:
                d = self.default(vt)
                if isinstance(d, Poison): raise Unsupported(d.why)
                self.store(o, self.typed(ite(h, m, mset(m, k, d)), ot), env)
            return Ref(o.root, o.path + (("k", k, vs, vt),), vt)
        if n == "at":
            k = A(0)
            return Ref(o.root, o.path + (("k", k, vs, vt),), vt)
        if n == "find": return KIter(o, A(0))
        if n in ("end", "cend"): return KIter(o, None, True)
        if n in ("begin", "cbegin"): return Iter(o, ZERO, False, True)
        if n in ("count", "contains"): return mhas(m, A(0))
        if n == "size": return length(entries(m)) if m.op != "mempty" else ZERO
        if n == "empty": return eqi(length(entries(m)), ZERO) if m.op != "mempty" else ONE
        if n == "clear": self.store(o, MEMPTY, env); return None
        if n == "operator=": self.store(o, self.maplist(A(0), self.Ty.info(ot)), env); return o
        if n == "erase":
            x = self.rv(e["a"][0], env)
            k = x.key if isinstance(x, KIter) else x if isinstance(x, T) else None
            if k is None: raise Unsupported("map erase")
            self.store(o, mdel(m, k), env); return None
        if n in ("insert", "emplace", "try_emplace", "insert_or_assign"):
            if na == 2 and n == "insert":
                x, y = self.rv(e["a"][0], env), self.rv(e["a"][1], env)
                if isinstance(x, Iter) or isinstance(y, Iter): return self.merge_map(o, x, y, env)
            if na == 2: k, v = A(0), A(1)
            else:
                x = self.rv(e["a"][0], env)
                if not isinstance(x, T): raise Unsupported("map insert")
                k = field(x, "first", self.Ty.sort(kt)); v = field(x, "second", vs)
            h = mhas(m, k)
            new = mset(m, k, v)
            self.store(o, new if n == "insert_or_assign" else ite(h, m, new), env)
            return None
        if n == "swap":
            b = self.ev(e["a"][0], env); v = self.load(b, env); self.store(b, m, env); self.store(o, v, env); return None
        raise Unsupported("map method " + n)

    def merge_map(self, o, x, y, env):
        """m.insert(first, last) over all entries of another map"""
        if not (isinstance(x, Iter) and x.map and x.pos is ZERO and isinstance(y, KIter) and y.end and x.ref == y.ref): raise Unsupported("map insert of a part of a map")
        i = self.Ty.info(o.t); ks, vs = self.Ty.sort(i[1]), self.Ty.sort(i[2])
        ent = note_seq(entries(self.load(x.ref, env)), "s")
        def body(e):
            k = self.typed(field(at(ent, self.e_pos(e), "s"), "first", ks), i[1]); v = mget(self.load(x.ref, e), k, vs)
            m = self.load(o, e)
            self.store(o, ite(mhas(m, k), m, mset(m, k, v)), e)
            return self.after(e)
        r = self.count_loop(length(ent), body, env, None)
        env.d = r["n"][1].d
        return None

    # ------------------------------------------------------------ iterators
    def m_iter(self, n, o, e, ot, env):
        it = self.val(o, env) if isinstance(o, Ref) else o
        if n in ("operator*", "operator->"): return self.deref(it, env)
        if n in ("operator++", "operator--"):
            new = self.iterop("+", it, ONE if n == "operator++" else const(-1), env)
            self.store(o, new, env)
            return it if e["a"] else o
        A = lambda k: self.rv(e["a"][k], env)
        if n in ("operator+", "operator-"): return self.iterop(n[8:], it, A(0), env)
        if n in ("operator+=", "operator-="):
            new = self.iterop(n[8], it, A(0), env); self.store(o, new, env); return o
        if n == "operator[]": return self.iter_deref(Iter(it.ref, padd(it.pos, A(0)), it.rev), env)
        if n in ("operator==", "operator!="): return self.iterop(n[8:], it, A(0), env)
        if n == "operator=": self.store(o, A(0), env); return o
        if n == "base": return it
        raise Unsupported("iterator " + n)
    def iterop(self, op, a, b, env):
        if isinstance(a, KIter) or isinstance(b, KIter):
            if op not in ("==", "!="): raise Unsupported("map iterator " + op)
            if isinstance(a, Iter) or isinstance(b, Iter):
                it, k = (a, b) if isinstance(a, Iter) else (b, a)
                if it.map and k.pos is not None and it.ref == k.ref:
                    r = eqi(it.pos, k.pos); return r if op == "==" else pnot(r)
                if not (it.map and k.end): raise Unsupported("map iterator")
                r = eqi(it.pos, length(entries(self.load(it.ref, env))))
            elif a.end and b.end: r = ONE
            elif a.end or b.end:
                k = b if a.end else a
                r = pnot(mhas(self.load(k.ref, env), k.key))
            else: r = EQ(a.key, b.key)
            return r if op == "==" else pnot(r)
        if isinstance(a, Iter) and isinstance(b, Iter):
            # a default-constructed iterator over matches is past the end
            if a.ref is None and b.ref is not None: a = Iter(b.ref, length(self.load(b.ref, env)), b.rev)
            if b.ref is None and a.ref is not None: b = Iter(a.ref, length(self.load(a.ref, env)), a.rev)
            if a.ref != b.ref or a.rev != b.rev: raise Unsupported("iterators of different containers")
            if op == "-": return psub(a.pos, b.pos)
            if op == "<=>": return CMP(a.pos, b.pos)
            return COMPARE[op](a.pos, b.pos)
        if isinstance(a, Iter):
            return Iter(a.ref, padd(a.pos, b) if op == "+" else psub(a.pos, b), a.rev, a.map)
        if isinstance(b, Iter) and op == "+": return Iter(b.ref, padd(b.pos, a), b.rev, b.map)
        raise Unsupported("iterator operation " + op)

def rec_retype(v, ty):
    if isinstance(v, T) and v.op == "rec" and v.args[1] is None: return rec(ty, None, v.args[2])
    return v

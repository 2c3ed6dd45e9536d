"""Front end of the Python helper module: translates wicked/utils.py into C++ over spec/py.h so that its functions join the
analysed program (values, not objects: a construct whose meaning would depend on shared references is refused)."""
import ast, os, re
import frontend

class Refuse(Exception): pass
BUILTIN_METHODS = {"append", "pop", "get", "join", "split", "strip", "format", "items", "keys", "values", "extend", "upper", "lower", "replace", "splitlines", "startswith", "endswith", "copy", "setdefault", "insert", "remove", "index", "count", "sort", "reverse", "update"}
MUTATORS = {"append", "pop", "extend", "insert", "remove", "sort", "reverse", "update", "setdefault"}
LAMBDAS = {"osi": "(*::orbital_subspaces)", "num_spaces": "::orbital_subspaces->num_spaces()"}
RESERVED = set("and or not xor int char float double long short signed unsigned bool auto const static class struct union template typename namespace using operator new delete this default switch case do goto break continue if else for while return throw try catch register volatile inline virtual public private protected friend mutable export extern explicit enum sizeof typedef void true false nullptr wpy".split())
# the exported signatures; helpers of the module's own take whatever they are given
SIGS = {"string_to_expr": ["const std::string &"], "split": ["const std::string &"], "gen_op": ["const std::string &", "int", "const std::string &", "const std::string &", "bool"], "compile_einsum": ["const ::Equation &"]}

def q(s):
    out = '"'
    for ch in s:
        if ch in '"\\': out += "\\" + ch
        elif ch == "\n": out += "\\n"
        elif ch == "\t": out += "\\t"
        elif 32 <= ord(ch) < 127: out += ch
        else: raise Refuse("character outside ASCII")
    return 'std::string(%s")' % out
def cname(n): return n + "_" if n in RESERVED else n
def const_int(e):
    if isinstance(e, ast.Constant) and type(e.value) is int: return e.value
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant) and type(e.operand.value) is int: return -e.operand.value
    return None

class Api:
    """the exported interface as the Python code sees it"""
    def __init__(self, P):
        import bindings
        self.free = {}; self.methods = {}; self.classes = set()
        for b in bindings.bindings(P):
            c = b.cls.split("::")[-1] if b.cls else None
            if c: self.classes.add(c)
            if b.kind == "init": self.methods.setdefault("__init__", []).append(b); continue
            if c is None: self.free.setdefault(b.name, []).append(b)
            else: self.methods.setdefault(b.name, []).append(b)
    def has(self, c, n): return any(b.cls and b.cls.split("::")[-1] == c for b in self.methods.get(n, []))

class Fn:
    """one function being translated"""
    def __init__(self, mod, node, captured=()):
        self.mod = mod; self.node = node; self.captured = list(captured)
        self.params = [a.arg for a in node.args.posonlyargs + node.args.args]
        if node.args.vararg or node.args.kwarg or node.args.kwonlyargs: raise Refuse("argument list of %s" % node.name)
        self.cur = {}; self.declared = set(); self.lambda_vars = []; self.nested = {}; self.modules = {}
        self.out = []; self.count = {}
        for p in self.params + self.captured: self.cur[p] = cname(p)
        self.plain = self.uses()
    def uses(self):
        """per local: whether it is changed in place"""
        mut = set()
        for n in ast.walk(self.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and isinstance(n.func.value, ast.Name): mut.add(n.func.value.id)
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name): mut.add(n.value.id)
        return mut
    # ---------------------------------------------------------------- names
    def name(self, n):
        for v in reversed(self.lambda_vars):
            if n in v: return v[n]
        if n in self.cur: return self.cur[n]
        return None
    # ---------------------------------------------------------------- expressions
    def tgt(self, t):
        if isinstance(t, ast.Name): return t.id
        if isinstance(t, ast.Tuple) and len(t.elts) == 2 and all(isinstance(x, ast.Name) for x in t.elts): return tuple(x.id for x in t.elts)
        raise Refuse("target of a comprehension")
    def source(self, e):
        """the sequence a loop runs over"""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "range":
            if len(e.args) > 2: raise Refuse("range with a step")
            return "wpy::range(%s)" % ", ".join(self.ex(a) for a in e.args)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("keys",): return "wpy::each(%s)" % self.ex(e.func.value)
        return "wpy::each(%s)" % self.ex(e)
    def lam(self, src, var, body):
        if isinstance(var, tuple):
            self.nit = getattr(self, "nit", 0) + 1; c = "it%d_" % self.nit
            self.lambda_vars.append({var[0]: c + ".first", var[1]: c + ".second"})
        else:
            c = cname(var) if var != "_" else "it_"
            self.lambda_vars.append({var: c})
        try: return "[&](const wpy::elem_t<decltype(%s)> &%s) { return %s; }" % (src, c, body())
        finally: self.lambda_vars.pop()
    def comp(self, e, kind):
        if len(e.generators) != 1: raise Refuse("comprehension with several sources")
        g = e.generators[0]
        src = self.source(g.iter)
        v = self.tgt(g.target)
        if kind == "dict":
            if g.ifs: raise Refuse("filtered dictionary comprehension")
            return "wpy::dictof(%s, %s, %s)" % (src, self.lam(src, v, lambda: self.ex(e.key)), self.lam(src, v, lambda: self.ex(e.value)))
        if kind in ("any", "all"):
            conds = lambda: " && ".join(["(%s)" % self.cond(c) for c in g.ifs])
            if g.ifs:
                if kind == "any": return "wpy::any(%s, %s)" % (src, self.lam(src, v, lambda: "%s && (%s)" % (conds(), self.cond(e.elt))))
                return "wpy::all(%s, %s)" % (src, self.lam(src, v, lambda: "!(%s) || (%s)" % (conds(), self.cond(e.elt))))
            return "wpy::%s(%s, %s)" % (kind, src, self.lam(src, v, lambda: self.cond(e.elt)))
        f = self.lam(src, v, lambda: self.ex(e.elt))
        if g.ifs: return "wpy::listof(%s, %s, %s)" % (src, f, self.lam(src, v, lambda: " && ".join("(%s)" % self.cond(c) for c in g.ifs)))
        return "wpy::listof(%s, %s)" % (src, f)
    def cond(self, e):
        """truth value"""
        if isinstance(e, ast.Compare) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not): return self.ex(e)
        if isinstance(e, ast.BoolOp):
            return (" && " if isinstance(e.op, ast.And) else " || ").join("(%s)" % self.cond(v) for v in e.values)
        if isinstance(e, ast.Constant) and isinstance(e.value, bool): return self.ex(e)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "get" and len(e.args) == 1: return "wpy::has(%s, %s)" % (self.ex(e.func.value), self.ex(e.args[0]))
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("all", "any"): return self.ex(e)
        return "wpy::truth(%s)" % self.ex(e)
    def empty(self, e): return isinstance(e, ast.List) and not e.elts or isinstance(e, ast.Dict) and not e.keys
    def ex(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None: raise Refuse("%s at line %d" % (type(e).__name__, getattr(e, "lineno", 0)))
        return m(e)
    def e_Constant(self, e):
        if isinstance(e.value, bool): return "true" if e.value else "false"
        if isinstance(e.value, int): return str(e.value)
        if isinstance(e.value, str): return q(e.value)
        raise Refuse("constant %r" % (e.value,))
    def e_Name(self, e):
        n = self.name(e.id)
        if n is not None: return n
        if e.id in self.mod.consts: return self.ex(self.mod.consts[e.id])
        raise Refuse("name " + e.id)
    def e_List(self, e):
        if not e.elts: return "std::vector<std::string>()"
        x = [self.ex(v) for v in e.elts]
        return "std::vector<std::decay_t<decltype(%s)>>{%s}" % (x[0], ", ".join(x))
    e_Tuple = e_List
    def e_Dict(self, e):
        if e.keys: raise Refuse("dictionary display")
        return "std::map<std::string, std::string>()"
    def e_ListComp(self, e): return self.comp(e, "list")
    def e_GeneratorExp(self, e): return self.comp(e, "list")
    def e_DictComp(self, e): return self.comp(e, "dict")
    def e_JoinedStr(self, e):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant): out.append(q(v.value))
            else:
                if v.conversion not in (-1, 115): raise Refuse("f-string conversion")
                if v.format_spec:
                    s = self.ex(v.format_spec)
                    out.append("wpy::fmt(%s, %s)" % (s, self.ex(v.value)))
                else: out.append("wpy::text(%s)" % self.ex(v.value))
        return "(%s)" % " + ".join(out) if out else 'std::string("")'
    def e_BinOp(self, e):
        if isinstance(e.op, ast.Add): return "wpy::plus(%s, %s)" % (self.ex(e.left), self.ex(e.right))
        if isinstance(e.op, ast.Mult):
            for a, b in ((e.left, e.right), (e.right, e.left)):
                if isinstance(a, ast.List): return "wpy::times(%s, %s)" % (self.ex(a), self.ex(b))
            return "(%s * %s)" % (self.ex(e.left), self.ex(e.right))
        if isinstance(e.op, ast.Sub): return "(%s - %s)" % (self.ex(e.left), self.ex(e.right))
        if isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, str): return self.percent(e.left.value, e.right)
        if isinstance(e.op, ast.FloorDiv): return "wpy::floordiv(%s, %s)" % (self.ex(e.left), self.ex(e.right))
        if isinstance(e.op, ast.Mod): return "wpy::mod(%s, %s)" % (self.ex(e.left), self.ex(e.right))
        raise Refuse("operator " + type(e.op).__name__)
    def percent(self, f, args):
        import re
        a = list(args.elts) if isinstance(args, ast.Tuple) else [args]
        out = []; pos = 0
        for m in re.finditer(r"%(%|[-+ 0-9.]*[sdf])", f):
            if m.start() > pos: out.append(q(f[pos:m.start()]))
            pos = m.end()
            if m.group(1) == "%": out.append(q("%")); continue
            x = self.ex(a.pop(0))
            out.append("wpy::text(%s)" % x if m.group(1) in ("s", "d") else "wpy::fmt(%s, %s)" % (q(m.group(1)), x))
        if pos < len(f): out.append(q(f[pos:]))
        return "(%s)" % " + ".join(out)
    def e_UnaryOp(self, e):
        if isinstance(e.op, ast.Not): return "!(%s)" % self.cond(e.operand)
        if isinstance(e.op, ast.USub): return "(-%s)" % self.ex(e.operand)
        raise Refuse("unary operator")
    def e_BoolOp(self, e): return "(%s)" % self.cond(e)
    def e_IfExp(self, e): return "(%s ? %s : %s)" % (self.cond(e.test), self.ex(e.body), self.ex(e.orelse))
    CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}
    def e_Compare(self, e):
        l = e.left; out = []
        for op, r in zip(e.ops, e.comparators):
            if isinstance(op, (ast.Eq, ast.NotEq)) and (self.empty(l) or self.empty(r)):
                x = "wpy::isempty(%s)" % self.ex(r if self.empty(l) else l)
                out.append(x if isinstance(op, ast.Eq) else "!" + x)
            elif isinstance(op, (ast.In, ast.NotIn)):
                x = "wpy::has(%s, %s)" % (self.source(r)[10:-1] if isinstance(r, ast.Call) and isinstance(r.func, ast.Attribute) and r.func.attr == "keys" else self.ex(r), self.ex(l))
                out.append(x if isinstance(op, ast.In) else "!" + x)
            elif isinstance(op, (ast.Is, ast.IsNot)) and isinstance(r, ast.Constant) and r.value is None and isinstance(l, ast.Call) and isinstance(l.func, ast.Attribute) and l.func.attr == "get" and len(l.args) == 1:
                x = "wpy::has(%s, %s)" % (self.ex(l.func.value), self.ex(l.args[0]))
                out.append(x if isinstance(op, ast.IsNot) else "!" + x)
            elif type(op) in self.CMP: out.append("(%s %s %s)" % (self.ex(l), self.CMP[type(op)], self.ex(r)))
            else: raise Refuse("comparison")
            l = r
        return "(%s)" % " && ".join(out)
    def e_Subscript(self, e):
        v = self.ex(e.value); s = e.slice
        if isinstance(s, ast.Slice):
            if s.step is not None:
                if const_int(s.step) == -1 and s.lower is None and s.upper is None: return "wpy::reversed(%s)" % v
                raise Refuse("slice with a step")
            lo = const_int(s.lower) if s.lower is not None else 0
            hi = const_int(s.upper) if s.upper is not None else None
            if s.lower is not None and lo is None or s.upper is not None and hi is None: raise Refuse("slice bounds")
            if lo is None or lo < 0: raise Refuse("slice bounds")
            if hi is None: return v if lo == 0 else "wpy::cut_from(%s, %d)" % (v, lo)
            if hi < 0 and lo == 0: return "wpy::cut_last(%s, %d)" % (v, -hi)
            if hi >= 0: return "wpy::cut(%s, %d, %d)" % (v, lo, hi)
            raise Refuse("slice bounds")
        return "wpy::idx(%s, %s)" % (v, self.ex(s))
    def api_call(self, b, args, kw, what):
        f = b.target
        names = [n for n, d in b.args]; dflt = dict(b.args)
        vals = [self.ex(a) for a in args]
        n = len(f["params"]) if f and "params" in f else len(vals) + len(kw)
        for k in range(len(vals), n):
            nm = names[k] if k < len(names) else None
            if nm in kw: vals.append(self.ex(kw.pop(nm)))
            elif nm is not None and dflt.get(nm) is not None: vals.append(dflt[nm])
            else: raise Refuse("arguments of " + what)
        if kw: raise Refuse("keyword of " + what)
        return vals
    def e_Call(self, e):
        kw = {k.arg: k.value for k in e.keywords}
        if None in kw: raise Refuse("** argument")
        f = e.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and self.name(f.value.id) is None:
            m = self.modules.get(f.value.id) or self.mod.modules.get(f.value.id)
            if m == "wicked": return self.wicked(f.attr, e.args, kw, e.lineno)
            if m == "itertools" and f.attr == "product": return self.product(e.args, kw)
            raise Refuse("call of %s.%s" % (f.value.id, f.attr))
        if isinstance(f, ast.Attribute): return self.method(e, f, kw)
        if not isinstance(f, ast.Name): raise Refuse("call of an expression")
        n = f.id
        if self.name(n) is None and n not in self.nested:
            im = self.modules.get(n) or self.mod.modules.get(n)
            if im == "itertools.product": return self.product(e.args, kw)
            if im and im.startswith("wicked."): return self.wicked(im.split(".")[-1], e.args, kw, e.lineno)
        if n in self.nested: return "pyutils::%s(%s)" % (self.nested[n].cn, ", ".join([self.ex(a) for a in self.bindargs(self.nested[n].node, e.args, kw)] + [self.name(c) for c in self.nested[n].captured]))
        if n in self.mod.funcs:
            self.mod.need(n)
            return "pyutils::py_%s(%s)" % (n, ", ".join(self.ex(a) for a in self.bindargs(self.mod.funcs[n], e.args, kw)))
        if kw: raise Refuse("keywords of " + n)
        a = e.args
        if n == "str" and len(a) == 1: return "wpy::text(%s)" % self.ex(a[0])
        if n == "len" and len(a) == 1: return "wpy::len(%s)" % self.ex(a[0])
        if n == "float" and len(a) == 1: return "wpy::to_float(%s)" % self.ex(a[0])
        if n in ("list", "tuple") and len(a) == 1: return self.source(a[0]) if not isinstance(a[0], (ast.GeneratorExp, ast.ListComp)) else self.comp(a[0], "list")
        if n in ("list", "tuple", "dict") and not a: return self.ex(ast.List(elts=[])) if n != "dict" else "std::map<std::string, std::string>()"
        if n == "bool" and len(a) == 1: return self.cond(a[0])
        if n in ("all", "any") and len(a) == 1:
            if isinstance(a[0], (ast.GeneratorExp, ast.ListComp)): return self.comp(a[0], n)
            s = self.source(a[0]); return "wpy::%s(%s, [&](const wpy::elem_t<decltype(%s)> &x_) { return x_; })" % (n, s, s)
        if n in ("sorted", "reversed") and len(a) == 1: return "wpy::%s(%s)" % (n, self.source(a[0]))
        if n in ("set", "frozenset") and len(a) == 1 and not isinstance(a[0], (ast.GeneratorExp, ast.ListComp)): return "wpy::distinct(%s)" % self.source(a[0])
        if n == "range": return self.source(e)
        if n == "zip" and len(a) == 2: return "wpy::zip(%s, %s)" % (self.source(a[0]), self.source(a[1]))
        if n == "enumerate" and len(a) == 1: return "wpy::enumerate(%s)" % self.source(a[0])
        raise Refuse("call of " + n)
    def bindargs(self, node, args, kw):
        ps = [a.arg for a in node.args.args]; d = dict(zip(ps[len(ps) - len(node.args.defaults):], node.args.defaults))
        out = list(args); kw = dict(kw)
        for p in ps[len(args):]:
            if p in kw: out.append(kw.pop(p))
            elif p in d: out.append(d[p])
            else: raise Refuse("argument %s of %s" % (p, node.name))
        if kw or len(out) != len(ps): raise Refuse("arguments of " + node.name)
        return out
    def product(self, args, kw):
        if kw:
            if set(kw) == {"repeat"} and len(args) == 1: return "wpy::pyproduct_n(%s, %s)" % (self.source(args[0]), self.ex(kw["repeat"]))
            raise Refuse("itertools.product")
        if len(args) == 1 and isinstance(args[0], ast.Starred): return "wpy::pyproduct(%s)" % self.ex(args[0].value)
        if any(isinstance(a, ast.Starred) for a in args): raise Refuse("itertools.product")
        return "wpy::pyproduct({%s})" % ", ".join(self.source(a) for a in args)
    def wicked(self, n, args, kw, line):
        A = self.mod.api
        if n in A.classes:
            if kw: raise Refuse("keywords of " + n)
            return "::%s(%s)" % (n, ", ".join(self.ex(a) for a in args))
        bs = A.free.get(n)
        if not bs: raise Refuse("wicked.%s is not exported" % n)
        if n in LAMBDAS and bs[0].lam:
            if args or kw: raise Refuse("arguments of " + n)
            return LAMBDAS[n]
        last = None
        for b in bs:
            if b.lam or b.target is None: last = Refuse("wicked.%s is bound to a lambda" % n); continue
            try: v = self.api_call(b, args, dict(kw), "wicked." + n)
            except Refuse as x: last = x; continue
            if b.target and "params" in b.target and len(v) != len(b.target["params"]): last = Refuse("number of arguments of wicked." + n); continue
            return "::%s(%s)" % (b.target["q"], ", ".join(v))
        raise last
    def method(self, e, f, kw):
        n = f.attr; a = e.args
        if isinstance(f.value, ast.Constant) and isinstance(f.value.value, str) and n == "join" and len(a) == 1:
            return "wpy::glue(%s, %s)" % (self.ex(f.value), self.comp(a[0], "list") if isinstance(a[0], (ast.ListComp, ast.GeneratorExp)) else self.source(a[0]))
        if n == "join" and len(a) == 1: return "wpy::glue(%s, %s)" % (self.ex(f.value), self.source(a[0]))
        bs = [b for b in self.mod.api.methods.get(n, [])]
        o = self.ex(f.value)
        if n == "split" and not kw: return "wpy::pysplit(%s, %s)" % (o, self.ex(a[0])) if a else "wpy::pysplit_ws(%s)" % o
        if n in ("strip", "splitlines") and not kw and not a: return "wpy::py%s(%s)" % (n, o)
        if n in ("append",) and len(a) == 1 and not kw: return "%s.push_back(%s)" % (self.lv(f.value), self.ex(a[0]))
        if n == "extend" and len(a) == 1: return "wpy::iadd(%s, %s)" % (self.lv(f.value), self.source(a[0]))
        if n == "pop" and len(a) <= 1: return "wpy::pop(%s)" % ", ".join([self.lv(f.value)] + [self.ex(x) for x in a])
        if n == "get" and len(a) == 2: return "wpy::getd(%s, %s, %s)" % (o, self.ex(a[0]), self.ex(a[1]))
        if n == "copy" and not a: return o
        if n == "replace" and len(a) == 2: return "wpy::pyreplace(%s, %s, %s)" % (o, self.ex(a[0]), self.ex(a[1]))
        if n == "format" and isinstance(f.value, ast.Constant): return self.format(f.value.value, a, kw)
        if not bs: raise Refuse("method " + n)
        if kw: raise Refuse("keywords of method " + n)
        tn = {b.target["n"] if b.target and not b.lam else None for b in bs}
        if tn != {n}: raise Refuse("method %s is not bound to the method of the same name" % n)
        return "wpy::val(%s.%s(%s))" % (o, n, ", ".join(self.ex(x) for x in a))
    def format(self, s, a, kw):
        import string
        out = []; k = 0
        for lit, fld, spec, conv in string.Formatter().parse(s):
            if lit: out.append(q(lit))
            if fld is None: continue
            if conv or "." in fld or "[" in fld: raise Refuse("format field")
            if fld == "": x = a[k]; k += 1
            elif fld.isdigit(): x = a[int(fld)]
            else: x = kw[fld]
            out.append("wpy::fmt(%s, %s)" % (q(spec), self.ex(x)) if spec else "wpy::text(%s)" % self.ex(x))
        return "(%s)" % " + ".join(out) if out else 'std::string("")'
    def lv(self, e):
        """a location that is changed in place"""
        if isinstance(e, ast.Name):
            n = self.name(e.id)
            if n is None: raise Refuse("name " + e.id)
            return n
        if isinstance(e, ast.Subscript) and not isinstance(e.slice, ast.Slice): return "wpy::lidx(%s, %s)" % (self.lv(e.value), self.ex(e.slice))
        raise Refuse("in-place change of an expression")
    # ---------------------------------------------------------------- statements
    def emit(self, d, s, line=None):
        if line: self.out.append('#line %d "%s"' % (line, self.mod.path))
        self.out.append("  " * d + s)
    def assigned(self, nodes):
        out = []
        for s in nodes:
            for n in ast.walk(s):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not s: continue
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in out: out.append(n.id)
        return out
    def block(self, body, d, top):
        for k, s in enumerate(body):
            if top and isinstance(s, (ast.If, ast.For, ast.While)):
                # a name first bound inside a branch or loop lives on after it
                rest = {n.id for t in body[k + 1:] for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
                for n in ast.walk(s):
                    if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                        v = n.targets[0].id
                        if v in rest and v not in self.cur:
                            x = self.ex(n.value)
                            self.emit(d, "std::decay_t<decltype(%s)> %s{};" % (x, cname(v)), s.lineno); self.cur[v] = cname(v)
            self.stmt(s, d, top)
    def stmt(self, s, d, top):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None: raise Refuse("%s at line %d" % (type(s).__name__, s.lineno))
        m(s, d, top)
    def s_Expr(self, s, d, top):
        if isinstance(s.value, ast.Constant): return
        self.emit(d, self.ex(s.value) + ";", s.lineno)
    def s_Pass(self, s, d, top): pass
    def s_Import(self, s, d, top):
        for a in s.names: self.modules[a.asname or a.name] = a.name
    def s_ImportFrom(self, s, d, top):
        for a in s.names: self.modules[a.asname or a.name] = "%s.%s" % (s.module, a.name)
    def s_Return(self, s, d, top):
        self.emit(d, "return %s;" % (self.ex(s.value) if s.value is not None else ""), s.lineno)
    def s_Raise(self, s, d, top): self.emit(d, 'throw std::runtime_error("");', s.lineno)
    def s_Break(self, s, d, top): self.emit(d, "break;", s.lineno)
    def s_Continue(self, s, d, top): self.emit(d, "continue;", s.lineno)
    def s_Assert(self, s, d, top): self.emit(d, 'if (!(%s)) throw std::runtime_error("");' % self.cond(s.test), s.lineno)
    def bind(self, v, val, d, top, line, src):
        if isinstance(src, ast.Name) and (v in self.plain or src.id in self.plain): raise Refuse("two names for one changing object")
        if v not in self.cur:
            c = cname(v); self.cur[v] = c; self.emit(d, "auto %s = %s;" % (c, val), line)
        elif top:
            self.count[v] = self.count.get(v, 1) + 1
            c = "%s_%d" % (cname(v), self.count[v])
            self.emit(d, "auto %s = %s;" % (c, val), line); self.cur[v] = c
        else: self.emit(d, "%s = %s;" % (self.cur[v], val), line)
    def s_Assign(self, s, d, top):
        if len(s.targets) != 1: raise Refuse("chained assignment")
        t = s.targets[0]
        if isinstance(t, ast.Name): self.bind(t.id, self.ex(s.value), d, top, s.lineno, s.value); return
        if isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple) and len(t.elts) == len(s.value.elts) and all(isinstance(x, ast.Name) for x in t.elts):
            names = {n.id for n in ast.walk(s.value) if isinstance(n, ast.Name)}
            if names & {x.id for x in t.elts}: raise Refuse("simultaneous assignment")
            for x, v in zip(t.elts, s.value.elts): self.bind(x.id, self.ex(v), d, top, s.lineno, v)
            return
        if isinstance(t, ast.Subscript): self.emit(d, "wpy::setidx(%s, %s, %s);" % (self.lv(t.value), self.ex(t.slice), self.ex(s.value)), s.lineno); return
        raise Refuse("assignment target")
    def s_AnnAssign(self, s, d, top):
        if s.value is None or not isinstance(s.target, ast.Name): raise Refuse("annotation")
        self.bind(s.target.id, self.ex(s.value), d, top, s.lineno, s.value)
    def s_AugAssign(self, s, d, top):
        if not isinstance(s.op, ast.Add) or not isinstance(s.target, ast.Name): raise Refuse("augmented assignment")
        self.emit(d, "wpy::iadd(%s, %s);" % (self.lv(s.target), self.ex(s.value)), s.lineno)
    def s_If(self, s, d, top):
        self.emit(d, "if (%s) {" % self.cond(s.test), s.lineno)
        self.scope(s.body, d + 1)
        if s.orelse:
            self.emit(d, "} else {"); self.scope(s.orelse, d + 1)
        self.emit(d, "}")
    def scope(self, body, d):
        old = dict(self.cur)
        self.block(body, d, False)
        self.cur = old
    def s_For(self, s, d, top):
        if s.orelse: raise Refuse("for-else")
        src = self.source(s.iter); t = s.target
        old = dict(self.cur)
        if isinstance(t, ast.Name):
            c = cname(t.id) if t.id != "_" else "it_"
            it = s.iter
            self.cur[t.id] = c
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range":
                a = [self.ex(x) for x in it.args]
                lo, hi = ("0", a[0]) if len(a) == 1 else a
                self.emit(d, "for (int %s = %s; %s < %s; %s++) {" % (c, lo, c, hi, c), s.lineno)
            else: self.emit(d, "for (const auto &%s%s : %s) {" % (c, "_it" if self.rebinds(s.body, t.id) else "", src), s.lineno)
            if self.rebinds(s.body, t.id):
                if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range": raise Refuse("loop counter is rebound")
                self.emit(d + 1, "auto %s = %s_it;" % (c, c))
                # further bindings of the name inside the body are versions of their own
                first = True
                body = []
                for b in s.body: body.append(b)
                self.rebound_block(body, t.id, d + 1)
                self.emit(d, "}"); self.cur = old; return
        elif isinstance(t, ast.Tuple) and len(t.elts) == 2 and all(isinstance(x, ast.Name) for x in t.elts):
            items = isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Attribute) and s.iter.func.attr == "items"
            a, b = [cname(x.id) for x in t.elts]
            for x in t.elts: self.cur[x.id] = cname(x.id)
            self.emit(d, "for (const auto &[%s, %s] : %s) {" % (a, b, self.ex(s.iter.func.value) if items else src[10:-1] if src.startswith("wpy::each(wpy::") else src), s.lineno)
        else: raise Refuse("loop target")
        self.block(s.body, d + 1, False)
        self.emit(d, "}")
        self.cur = old
    def rebinds(self, body, n):
        return any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == n for b in body for x in ast.walk(b))
    def rebound_block(self, body, n, d):
        for b in body:
            if isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) and b.targets[0].id == n:
                v = self.ex(b.value)
                self.count[n] = self.count.get(n, 1) + 1
                c = "%s_%d" % (cname(n), self.count[n])
                self.emit(d, "auto %s = %s;" % (c, v), b.lineno); self.cur[n] = c
            elif self.rebinds([b], n): raise Refuse("loop variable rebound in a branch")
            else: self.stmt(b, d, False)
    def s_While(self, s, d, top):
        if s.orelse: raise Refuse("while-else")
        self.emit(d, "while (%s) {" % self.cond(s.test), s.lineno); self.scope(s.body, d + 1); self.emit(d, "}")
    def s_FunctionDef(self, s, d, top):
        # a nested function becomes one of its own, with what it reads of its surroundings as further arguments
        ps = {a.arg for a in s.args.args}
        loc = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        free = []
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in ps | loc and n.id in set(self.assigned(self.node.body)) | set(self.params) and n.id not in free: free.append(n.id)
        f = Fn(self.mod, s, free); f.modules = self.modules; f.nested = self.nested
        f.cn = "py_%s__%s" % (self.node.name, s.name.lstrip("_"))
        self.nested[s.name] = f
        self.mod.emit_function(f, f.cn, None)
    def s_Global(self, s, d, top): raise Refuse("global")

class Module:
    def __init__(self, P, path, source, banned=None):
        self.banned = banned or {}
        self.api = Api(P); self.path = path
        self.tree = ast.parse(source)
        self.funcs = {}; self.modules = {}; self.consts = {}
        self.refused = {}; self.text = []; self.done = set()
        for s in self.tree.body:
            if isinstance(s, ast.FunctionDef): self.funcs[s.name] = s
            elif isinstance(s, ast.Import):
                for a in s.names: self.modules[a.asname or a.name] = a.name
            elif isinstance(s, ast.ImportFrom):
                for a in s.names: self.modules[a.asname or a.name] = "%s.%s" % (s.module or "wicked", a.name)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Constant): self.consts[s.targets[0].id] = s.value
    def need(self, n):
        if n in self.done: 
            if n in self.refused: raise Refuse("%s: %s" % (n, self.refused[n]))
            return
        self.done.add(n)
        try:
            if n in self.banned: raise Refuse(self.banned[n])
            self.emit_function(Fn(self, self.funcs[n]), "py_" + n, SIGS.get(n))
        except Refuse as x: self.refused[n] = str(x); raise
    def emit_function(self, f, cn, sig):
        ps = f.params + f.captured
        types = sig if sig and len(sig) == len(f.params) else None
        pl = []
        for k, p in enumerate(ps):
            pl.append("%s%s" % (types[k] if types and k < len(types) else "auto &&", " " + cname(p) if (types and not types[k].endswith("&")) else cname(p)))
        saved = f.out
        # parameters that are bound again get a variable of their own
        own = [p for p in f.params if any(isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == p or isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == p for t in n.targets) for n in ast.walk(f.node))]
        body_first = []
        for p in own:
            if any(isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == p for n in ast.walk(f.node)):
                f.cur[p] = cname(p) + "_own"; f.emit(1, "auto %s_own = %s;" % (cname(p), cname(p)))
        f.block(f.node.body, 1, True)
        self.text.append('#line %d "%s"' % (f.node.lineno, self.path))
        self.text.append("inline auto %s(%s) {" % (cn, ", ".join(pl)))
        self.text += f.out
        self.text.append("}")
    def generate(self):
        for n in self.funcs:
            try: self.need(n)
            except Refuse: pass
        return "// generated from %s by lib/pyfront.py\n#include \"%s/spec/py.h\"\nnamespace pyutils {\n%s\n} // namespace pyutils\n" % (self.path, frontend.VERIF, "\n".join(self.text))
def translate(P, banned=None):
    path = os.path.join(frontend.REPO, "wicked", "utils.py")
    m = Module(P, path, open(path).read(), banned)
    return m, m.generate()
def blame(m, message):
    """functions in which the C++ front end rejects the translation, with the message"""
    out = {}
    for l in message.split("\n"):
        x = re.search(re.escape(m.path) + r":(\d+): (.*)", l)
        if not x: continue
        for n, f in m.funcs.items():
            if f.lineno <= int(x.group(1)) <= f.end_lineno: out.setdefault(n, "the translation does not type check: " + x.group(2)[:160])
    return out
if __name__ == "__main__":
    import sys
    P = frontend.load()
    m, t = translate(P)
    print(t); print(m.refused)

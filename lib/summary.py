"""Summaries: what a function returns, when it throws and what it leaves in everything it may modify."""
from stdlib import *

DEFAULT_ANCHORS = {"operator<", "operator==", "operator!=", "operator>", "operator<=", "operator>=", "operator<=>"}

class Summary:
    def __init__(self): self.ret = None; self.exc = ZERO; self.outs = {}; self.calls = set(); self.f = None
    def items(self):
        out = []
        if self.ret is not None: out.append(("result", self.ret))
        for k in sorted(self.outs): out.append((k, self.outs[k]))
        return out

class Engine(FlowLib):
    strong = False
    def summarise(self, f, alias=None, names=None, selfparam=False):
        """analyse f on fresh inputs.  alias: {param position: 'this'} analyses the call with that argument being the
        object itself.  names: names of the parameters (so that two functions get the same input symbols)"""
        TM.reset()
        env = Env({"#exc": ZERO}, None, {})
        S = Summary(); S.f = f
        self.calls = set()
        self.stack = []
        roots = {}
        this = None
        if f.get("method") and not f.get("static"):
            t = f["clst"]
            env.d["in:this"] = self.symval("this", t); env.ty["in:this"] = t
            this = Ref("in:this", (), t)
            if not f.get("constm") and not f.get("ctor"): roots["this"] = "in:this"
            if f.get("ctor"):
                env.d["in:this"] = raw("undef", self.Ty.canon(self.Ty.cname(t))); roots["this"] = "in:this"
        args = []
        for k, p in enumerate(f["params"]):
            nm = names[k] if names else "a%d" % k
            t = self.Ty.strip(p["t"])
            if alias and k in alias:
                args.append(this if alias[k] == "this" else args[alias[k]]); continue
            i = self.Ty.info(t)
            root = "in:" + nm
            if i[0] in ("fn", "lambda"): v = sym(nm, "s")
            elif i[0] == "ptr" and self.Ty.info(i[1])[0] == "int": v = sym(nm, "s")
            elif i[0] in ("ptr", "sptr"): 
                env.d[root] = self.symval(nm, i[1]); env.ty[root] = i[1]; args.append(Ptr(Ref(root, (), i[1]))); continue
            elif i[0] == "stream":
                env.d[root] = EMPTY; env.ty[root] = t; args.append(Ref(root, (), t)); roots[nm] = root; continue
            else: v = self.symval(nm, t)
            env.d[root] = v; env.ty[root] = t
            args.append(Ref(root, (), t))
            if self.Ty.isref(p["t"]) and not self.Ty.isconst(p["t"]) and not self.Ty.isrref(p["t"]): roots[nm] = root
        self.registry(env)
        roots.setdefault("osi", "osi")
        self.dirty = []
        self.initial = {r: env.d.get(r) for r in roots.values()} if self.strong and not f.get("ctor") else None
        if f.get("ctor"):
            self.run_ctor(f, this, args, env); v = None
        else:
            v = self.inline(f, this, args, env)
        S.exc = env.d.get("#exc", ZERO)
        self.initial = None
        S.dirty = sorted(set(self.dirty))
        if v is not None and not isinstance(v, Poison):
            rt = f.get("ret", -1)
            if isinstance(v, Ref) and not v.path and v.root in roots.values(): v = None     # returns *this or a parameter
            else:
                try: v = self.val(v, env)
                except Unsupported: raise
        elif isinstance(v, Poison) and S.exc is not ONE:
            if self.Ty.info(f.get("ret", -1))[0] != "void": raise Unsupported(v.why)
            v = None
        else: v = None
        if isinstance(v, T): S.ret = v
        elif isinstance(v, Iter): raise Unsupported("returns an iterator")
        elif v is not None: raise Unsupported("returns " + type(v).__name__)
        for k, root in roots.items():
            x = env.d.get(root)
            if isinstance(x, Poison): raise Unsupported(x.why)
            if isinstance(x, T) and not (k == "osi" and x is sym("osi", "s")): S.outs[k] = x
        S.calls = set(self.calls)
        return S

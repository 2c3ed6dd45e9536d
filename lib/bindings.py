"""What the module exports to Python: every .def(...) of the pybind11 binding functions, with its target, keyword names and defaults."""
from rules_effects import nodes, repo_functions, peel
class Binding:
    """one exported function; target is a function of the program (for a lambda, its body)"""
    def __init__(self, cls, name, f, line, file): self.cls = cls; self.name = name; self.target = f; self.line = line; self.file = file; self.args = []; self.extra = []; self.kind = "def"; self.policy = None
    def q(self): return (self.cls + "." if self.cls else "") + self.name
def clsname(P, t):
    s = P.types[t].get("s", "") if t is not None and t >= 0 else ""
    if "class_<" in s:
        s = s[s.index("class_<") + 7:]
        d = 0
        for k, ch in enumerate(s):
            if ch == "<": d += 1
            elif ch == ">":
                if d == 0: return s[:k].strip()
                d -= 1
            elif ch == "," and d == 0: return s[:k].strip()
    return None
def text(P, e):
    """source-like text of a constant"""
    e = peel(e) if isinstance(e, dict) and e.get("k") == "cast" else e
    if not isinstance(e, dict): return "?"
    k = e.get("k")
    if k == "bool": return "true" if e.get("v") else "false"
    if k in ("int", "char"): return str(e["v"])
    if k == "str": return repr(e["v"])
    if k == "enum": return e["n"]
    if k == "cast":
        a = e["a"]
        return text(P, a[0] if isinstance(a, list) else a)
    if k in ("ctor", "ilist"):
        a = [text(P, x) for x in e.get("a") or [] if isinstance(x, dict) and not x.get("defarg")]
        n = P.types[e["t"]].get("s", "").replace("const ", "") if e.get("t", -1) >= 0 else ""
        if len(a) == 1 and e.get("copy"): return a[0]
        if n in ("rational", "scalar_t"): return "rational(%s)" % ", ".join(x for x in a)
        return "%s(%s)" % (n, ", ".join(a))
    return "?" + str(k)
def argspec(P, a):
    """(keyword, default or None) of a py::arg, else None"""
    g = P.functions.get(a.get("f") or "")
    if a.get("k") == "call" and g and 'operator""' in g["q"].replace(" ", ""): return ((a.get("a") or [{}])[0].get("v"), None)
    if a.get("k") == "ctor" and "pybind11::arg" in P.types[a["t"]].get("s", "") and a.get("a") and a["a"][0].get("k") == "str": return (a["a"][0]["v"], None)
    if a.get("k") == "mcall" and g and g["n"] == "operator=":
        b = argspec(P, a["o"])
        if b: return (b[0], text(P, (a.get("a") or [None])[0]))
    if a.get("k") in ("ctor", "cast") and a.get("a"):
        x = a["a"]; x = x[0] if isinstance(x, list) else x
        if isinstance(x, dict): return argspec(P, x)
    return None
def bindings(P):
    out = []
    for f in repo_functions(P):
        if "/api/" not in f["file"]: continue
        for n in nodes(f["body"], ("mcall",)):
            g = P.functions.get(n.get("f") or "")
            if not g or g["n"] not in ("def", "def_static", "def_property_readonly", "def_readonly", "def_readwrite", "def_property") : continue
            a = n.get("a") or []
            c = clsname(P, (n.get("o") or {}).get("t"))
            if not a: continue
            if a[0].get("k") != "str":
                b = Binding(c, "?", None, n.get("l"), f["file"]); b.kind = "init" if True else ""; b.node = n; out.append(b); continue
            fn = a[1] if len(a) > 1 else None
            t = None
            if fn is not None:
                fr = [x for x in nodes(fn, ("fref",))] if fn.get("k") != "lambda" else []
                if fn.get("k") == "lambda": t = P.functions.get(fn["f"])
                elif len(fr) == 1: t = P.functions.get(fr[0]["f"])
            b = Binding(c, a[0]["v"], t, (fn or {}).get("l") or n.get("l"), f["file"]); b.kind = g["n"]; b.lam = fn is not None and fn.get("k") == "lambda"
            b.node = n
            for x in a[2:]:
                s = argspec(P, x)
                if s: b.args.append(s)
                if "return_value_policy" in P.types[x["t"]].get("s", "") if x.get("t", -1) is not None and x.get("t", -1) >= 0 else False: b.policy = text(P, x)
            out.append(b)
    return out
def wrapper(P, b):
    """the exported call as a function of its Python arguments"""
    f = b.target
    if b.lam: return f
    def newtype(base, const):
        y = P.types[base]
        key = ("bindref", base, const)
        c = getattr(P, "_bindtypes", None)
        if c is None: c = P._bindtypes = {}
        if key in c: return c[key]
        i = base
        if const and not y.get("const"):
            z = dict(y); z["const"] = True; z["s"] = "const " + y.get("s", ""); P.types.append(z); i = len(P.types) - 1
        P.types.append({"k": "ref", "to": i, "s": P.types[i].get("s", "") + " &"})
        c[key] = len(P.types) - 1
        return c[key]
    params = []; args = []; obj = None
    if f.get("method") and not f.get("static"):
        # a method of a base class is called on the bound class
        ct = f["clst"]
        if b.cls:
            for i, y in enumerate(P.types):
                if y.get("s") == b.cls and y.get("k") not in ("ref", "ptr", "rref") and not y.get("const"): ct = i; break
        t = newtype(ct, f.get("constm"))
        params.append({"id": "bind:self", "n": "a0", "t": t}); obj = {"k": "ref", "id": "bind:self", "n": "a0", "t": ct, "l": b.line}
    for k, p in enumerate(f["params"]):
        i = "bind:%d" % k
        params.append({"id": i, "n": "a%d" % len(params), "t": p["t"]}); args.append({"k": "ref", "id": i, "n": p["n"], "t": p["t"] if P.types[p["t"]].get("k") not in ("ref", "rref") else P.types[p["t"]]["to"], "l": b.line})
    call = {"k": "mcall" if obj else "call", "f": f["key"], "a": args, "l": b.line, "t": f.get("ret", -1)}
    if obj: call["o"] = obj; call["arrow"] = False; call["lv"] = True
    void = P.types[f["ret"]].get("s") == "void" if f.get("ret", -1) >= 0 else True
    body = {"k": "block", "l": b.line, "a": [{"k": "expr", "e": call, "l": b.line} if void else {"k": "ret", "e": call, "l": b.line}]}
    return {"q": "binding " + b.q(), "n": b.q(), "key": "bind|" + b.q() + "|" + f["key"], "params": params, "ptypes": [p["t"] for p in params], "ret": f.get("ret", -1), "body": body, "file": b.file, "line": b.line, "repo": True, "method": False}

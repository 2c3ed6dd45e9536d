"""The Python helper module against the interface the extension exports (C24)."""
import ast, os
import frontend
from rules import rule, Result

EXPORTS = {"string_to_expr": ["s"], "gen_op": ["label", "rank", "cre_spaces", "ann_spaces", "diagonal"], "compile_einsum": ["equation"]}
DEFAULTS = {"gen_op": {"diagonal": True}}
PYTHON_METHODS = {m for t in (str, list, dict, tuple, set, int, float, bytes) for m in dir(t)}

def imports_of(tree, modname):
    """name -> imported thing, over the whole module"""
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names: out[a.asname or a.name.split(".")[0]] = a.name
        elif isinstance(n, ast.ImportFrom):
            m = ("wicked" if n.level else "") + (("." if n.level and n.module else "") + (n.module or ""))
            for a in n.names: out[a.asname or a.name] = "%s.%s" % (m, a.name)
    return out

@rule("C24")
def helper_interface(P):
    """every name, method and keyword of the extension that the Python helpers use is exported by the bindings under that name; the helpers keep their parameter names and defaults and are re-exported by the package"""
    r = Result(); R = frontend.REPO
    path = os.path.join(R, "wicked", "utils.py"); init = os.path.join(R, "wicked", "__init__.py")
    m = getattr(P, "py", None)
    if getattr(P, "py_error", None): r.unk("utils.py: %s" % str(P.py_error)[:200])
    if m is None:
        try: tree = ast.parse(open(path).read())
        except SyntaxError as x:
            r.bad(path, x.lineno or 1, "utils.py", "the helper module is valid Python", "syntax error: %s" % x.msg); return r
        import pyfront
        api = pyfront.Api(P)
    else: tree = m.tree; api = m.api
    for n, why in sorted((m.refused if m else {}).items()): r.unk("%s: not translated: %s" % (n, why))
    for x in getattr(P, "py_messages", None) or []: r.unk("utils.py: %s" % str(x)[:150])
    funcs = {s.name: s for s in tree.body if isinstance(s, ast.FunctionDef)}
    names = {}
    for s in tree.body:
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)): names[s.name] = s
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name): names[t.id] = s
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names: names[a.asname or a.name.split(".")[0]] = s
    # what the package re-exports
    allnames = None
    for s in tree.body:
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in s.targets) and isinstance(s.value, (ast.List, ast.Tuple)):
            if all(isinstance(e, ast.Constant) for e in s.value.elts): allnames = [e.value for e in s.value.elts]
            else: allnames = "?"
        elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == "__all__": allnames = "?"
    if allnames == "?": r.unk("__all__ is computed"); allnames = None
    itree = ast.parse(open(init).read())
    star = [s for s in itree.body if isinstance(s, ast.ImportFrom) and any(a.name == "*" for a in s.names)]
    direct = {a.asname or a.name for s in itree.body if isinstance(s, ast.ImportFrom) for a in s.names}
    stars = {(s.module or "", s.level) for s in star}
    has = lambda mod: any((m_, l) in stars for m_, l in ((mod, 1), ("wicked." + mod, 0)))
    if has("_wicked"): r.ok("wicked re-exports the extension")
    elif any((a.name == "_wicked") for s in ast.walk(itree) if isinstance(s, (ast.ImportFrom, ast.Import)) for a in s.names): r.unk("__init__: the extension is re-exported in another way")
    else: r.bad(init, 1, "__init__.py", "the package re-exports the extension", "no 'from ._wicked import *'")
    for n, ps in EXPORTS.items():
        if n not in names: r.bad(path, 1, n, "the helper exists", "utils.py defines no %s" % n); continue
        exported = n in direct or has("utils") and (allnames is None or n in allnames)
        if exported: r.ok("%s is exported by the package" % n)
        elif has("utils"): r.bad(path, names[n].lineno, n, "the package re-exports its helpers", "%s is missing from __all__" % n)
        elif any("utils" in (s.module or "") for s in ast.walk(itree) if isinstance(s, ast.ImportFrom)) or any(n in ast.dump(s) for s in itree.body): r.unk("__init__: %s is re-exported in another way" % n)
        else: r.bad(init, 1, n, "the package re-exports its helpers", "%s is not imported by __init__.py" % n)
        f = names[n]
        if not isinstance(f, ast.FunctionDef): r.unk("%s is not a plain function" % n); continue
        r.functions.add("utils.%s" % n)
        a = f.args; own = [x.arg for x in a.posonlyargs + a.args]
        if a.vararg or a.kwarg: r.unk("argument list of %s" % n); continue
        kwonly = [x.arg for x in a.kwonlyargs]
        required = own[:len(own) - len(a.defaults)] if a.defaults else own
        optional = set(own[len(required):]) | {k.arg for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        want_req = [p for p in ps if p not in DEFAULTS.get(n, {})]
        if own[:len(ps)] != ps: r.bad(path, f.lineno, n, "the helper keeps its parameters", "parameters are %s, callers rely on %s" % (own + kwonly, ps)); continue
        if len(required) > len(want_req) or any(k.arg not in optional for k in a.kwonlyargs): r.bad(path, f.lineno, n, "the helper keeps its parameters", "required parameters are %s, callers give %s" % (required + [k for k in kwonly if k not in optional], want_req)); continue
        r.ok("%s(%s)" % (n, ", ".join(own)))
        for p, v in DEFAULTS.get(n, {}).items():
            d = a.defaults[own.index(p) - len(required)]
            if isinstance(d, ast.Constant):
                if d.value is v: r.ok("%s: %s=%s" % (n, p, v))
                else: r.bad(path, d.lineno, n, "the helper keeps its defaults", "%s=%r instead of %r" % (p, d.value, v))
            else: r.unk("%s: default of %s" % (n, p))
    # what the helpers use
    imp = imports_of(tree, "utils")
    mods = {k for k, v in imp.items() if v == "wicked" or v == "wicked._wicked"}
    own = set(funcs)
    classes = any(isinstance(n, ast.ClassDef) for n in ast.walk(tree))
    for f in funcs.values():
        for n in ast.walk(f):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in mods:
                if n.attr in api.free or n.attr in api.classes or n.attr in EXPORTS or n.attr in {"utils", "_wicked", "__version__"}:
                    r.ok("%s uses wicked.%s" % (f.name, n.attr))
                else: r.bad(path, n.lineno, f.name, "the helpers use only what the extension exports", "wicked.%s is not exported by any binding" % n.attr)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                if isinstance(n.value, ast.Name) and n.value.id in imp: continue
                if n.attr in api.methods or n.attr in PYTHON_METHODS: r.ok()
                elif not classes: r.bad(path, n.lineno, f.name, "the helpers use only what the extension exports", "no bound class and no built-in type has a member %s" % n.attr)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in mods and n.func.attr in api.free:
                bs = api.free[n.func.attr]
                if any(b.target is None for b in bs): continue
                fits = []
                for b in bs:
                    np = len(b.target["params"]); kws = [x for x, _ in b.args]; dfl = {x for x, d in b.args if d is not None}
                    if any(isinstance(x, ast.Starred) for x in n.args) or any(k.arg is None for k in n.keywords): fits.append(b); continue
                    if len(n.args) > np: continue
                    if any(k.arg not in kws or kws.index(k.arg) < len(n.args) for k in n.keywords): continue
                    rest = [kws[i] if i < len(kws) else None for i in range(len(n.args), np)]
                    if any(x is None or x not in dfl and x not in {k.arg for k in n.keywords} for x in rest): continue
                    fits.append(b)
                if fits: r.ok("%s calls wicked.%s with its arguments" % (f.name, n.func.attr))
                else: r.bad(path, n.lineno, f.name, "calls of the extension match an exported signature", "wicked.%s cannot be called with %d positional arguments and keywords %s" % (n.func.attr, len(n.args), [k.arg for k in n.keywords]))
    return r

"""Consistency of tables over enumerations (C16), error discipline (C14), widths of exact numbers (C02)."""
import flow
from rules import rule, Result
from rules_effects import repo_functions, nodes, reach, effects, peel

TEXTS = {"FieldType": {"Fermion": {"fermion", "a"}, "Boson": {"boson", "b"}},
         "SpaceType": {"Occupied": {"occupied"}, "Unoccupied": {"unoccupied"}, "General": {"general"}}}
BOUND = {"FieldType": {"fermion": "Fermion", "boson": "Boson"}, "SQOperatorType": {"cre": "Creation", "ann": "Annihilation"},
         "SymmetryType": {"symm": "Symmetric", "anti": "Antisymmetric", "none": "Nonsymmetric"},
         "PrintLevel": {"none": "None", "basic": "Basic", "summary": "Summary", "detailed": "Detailed", "all": "All"}}
def repo_enums(P):
    return {k: v for k, v in P.enums.items() if v.get("file", "").startswith(frontend_repo())}
def frontend_repo():
    import frontend
    return frontend.REPO
def string_of(e):
    e = peel(e)
    while isinstance(e, dict) and e.get("k") in ("ctor", "cast", "ilist"):
        a = e.get("a")
        a = a if isinstance(a, list) else [a]
        a = [x for x in a if isinstance(x, dict)]
        if not a: return "" if e["k"] == "ctor" else None
        e = a[0]
    if isinstance(e, dict) and e.get("k") == "str": return e["v"]
    if isinstance(e, dict) and e.get("k") == "char": return chr(e["v"]) if isinstance(e.get("v"), int) else str(e.get("v"))
    return None
def enum_of(e):
    e = peel(e)
    while isinstance(e, dict) and e.get("k") in ("ctor", "cast", "ilist") and e.get("a"):
        a = e["a"]; e = a[0] if isinstance(a, list) else a
    return e["n"] if isinstance(e, dict) and e.get("k") == "enum" else None
def table_entries(init):
    """pairs of a constant table initialiser, or None"""
    e = init
    for _ in range(4):
        if not isinstance(e, dict): return None
        if e.get("k") == "ilist": break
        a = e.get("a")
        if not a: return []
        e = a[0] if isinstance(a, list) else a
    if not isinstance(e, dict) or e.get("k") != "ilist": return None
    out = []
    for x in e["a"]:
        x = peel(x) if x.get("k") == "cast" else x
        if not isinstance(x, dict) or x.get("k") not in ("ctor", "ilist") or len(x.get("a") or []) < 2: return None
        out.append((x["a"][0], x["a"][1], x.get("l")))
    return out

@rule("C16")
def enumeration_tables(P):
    """every constant table over an enumeration has exactly one entry per enumerator with distinct texts, is only read by look-ups that cannot create entries, and every enumeration bound to Python names each enumerator"""
    r = Result(); enums = repo_enums(P)
    E = effects(P)
    tabs = []
    for gid, g in P.globals.items():
        if g.get("repo") and g.get("init"): tabs.append((gid, g["n"], g["t"], g["init"], g["file"], g["line"], "namespace scope"))
    for f in repo_functions(P):
        for d in nodes(f["body"], ("decl",)):
            for v in d["a"]:
                if isinstance(v, dict) and v.get("init") and (v.get("static") or P.types[v["t"]].get("const")): tabs.append((v["id"], v["n"], v["t"], v["init"], f["file"], v.get("l"), f["q"]))
    ids = {}
    for tid, name, t, init, file, line, where in tabs:
        i = E.Ty.info(t)
        if not i or i[0] != "map": continue
        kt, vt = i[1], i[2] if len(i) > 2 else None
        kn = P.types[kt].get("s", "") if isinstance(kt, int) else ""; vn = P.types[vt].get("s", "") if isinstance(vt, int) else ""
        kn = kn.replace("const ", ""); vn = vn.replace("const ", "")
        en, side = (kn, 0) if kn in enums else (vn, 1) if vn in enums else (None, None)
        if en is None: continue
        ids[tid] = name
        ents = table_entries(init)
        if ents is None: r.unk("table %s in %s: initialiser not a list of constants" % (name, where)); continue
        seen = {}; texts = {}
        bad = False
        for a, b, l in ents:
            ev = enum_of(a if side == 0 else b); tx = string_of(b if side == 0 else a)
            if ev is None: r.unk("table %s: entry not constant" % name); bad = True; continue
            short = ev.split("::")[-1]
            if side == 0 and short in seen: r.bad(file, l or line, where, "one entry per kind in every table", "table %s lists %s twice" % (name, ev)); bad = True
            seen[short] = tx
            if tx is None: continue
            if not tx: r.bad(file, l or line, where, "no empty text in a table", "table %s has an empty text for %s" % (name, ev)); bad = True
            if tx in texts and texts[tx] != short: r.bad(file, l or line, where, "distinct kinds have distinct texts", "table %s gives %s and %s the same text '%s'" % (name, texts[tx], short, tx)); bad = True
            texts[tx] = short
            ref = TEXTS.get(en)
            if ref and short in ref and tx not in ref[short]:
                other = [k for k in ref if tx in ref[k]]
                r.bad(file, l or line, where, "every kind has its own text", "table %s gives %s the text '%s'%s" % (name, ev, tx, ", which belongs to %s" % other[0] if other else "")); bad = True
        for v in enums[en]["vals"]:
            if v["n"] not in seen: r.bad(file, line, where, "every kind has an entry in every table", "table %s has no entry for %s::%s" % (name, en, v["n"])); bad = True
        if not bad: r.ok("table %s: %s" % (name, ", ".join("%s=%r" % x for x in sorted(seen.items()))))
    # look-ups
    for f in repo_functions(P):
        r.functions.add(f["q"])
        for n in nodes([f["body"], f.get("inits")], ("mcall",)):
            o = n.get("o")
            if not isinstance(o, dict) or o.get("k") != "ref" or o["id"] not in ids: continue
            g = P.functions.get(n.get("f") or "")
            nm = g["n"] if g else "operator" + (n.get("op") or "")
            if nm in ("operator[]", "insert", "emplace", "erase", "clear", "try_emplace", "insert_or_assign", "operator="):
                r.bad(f["file"], n.get("l") or f["line"], f["q"], "a look-up of a kind never creates an entry", "%s on table %s may create or change an entry" % (nm, ids[o["id"]]))
            else: r.ok()
    # Python enumerations
    for f in repo_functions(P):
        if "/api/" not in f["file"]: continue
        vals = {}
        for n in nodes(f["body"], ("mcall",)):
            g = P.functions.get(n.get("f") or "")
            if not g or g["n"] != "value" or "enum_" not in g["q"]: continue
            a = n.get("a") or []
            if len(a) < 2: continue
            ev, tx = enum_of(a[1]), string_of(a[0])
            if ev is None or tx is None: r.unk("%s: binding of an enumerator not constant" % f["q"]); continue
            en, short = ev.rsplit("::", 1)
            vals.setdefault(en, []).append((tx, short, n.get("l")))
        for en, l in vals.items():
            if en not in enums: continue
            bad = False
            names = {}; done = set()
            for tx, short, line in l:
                if tx in names: r.bad(f["file"], f["line"], f["q"], "each kind has its own Python name", "two enumerators of %s are bound as '%s'" % (en, tx)); bad = True
                names[tx] = short
                if short in done: r.bad(f["file"], f["line"], f["q"], "each kind has its own Python name", "%s::%s is bound twice" % (en, short)); bad = True
                done.add(short)
                want = BOUND.get(en, {}).get(tx)
                if want and want != short: r.bad(f["file"], f["line"], f["q"], "each kind has its own Python name", "'%s' names %s::%s instead of %s::%s" % (tx, en, short, en, want)); bad = True
            for v in enums[en]["vals"]:
                if v["n"] not in done: r.bad(f["file"], f["line"], f["q"], "each kind can be named from Python", "%s::%s is not bound" % (en, v["n"])); bad = True
            for tx, want in BOUND.get(en, {}).items():
                if tx not in names and not bad: r.bad(f["file"], f["line"], f["q"], "each kind can be named from Python under its own name", "the name '%s' of %s::%s is gone" % (tx, en, want)); bad = True
            if not bad: r.ok("Python enumeration %s: %s" % (en, ", ".join("%s=%s" % (a, b) for a, b, _ in l)))
        # enumeration objects that were bound before and are no longer
    bound = {en for f in repo_functions(P) if "/api/" in f["file"] for n in nodes(f["body"], ("mcall",)) for g in [P.functions.get(n.get("f") or "")] if g and g["n"] == "value" and "enum_" in g["q"] for ev in [enum_of((n.get("a") or [None, None])[1])] if ev for en in [ev.rsplit("::", 1)[0]]}
    for en in BOUND:
        if en in enums and en not in bound: r.bad(enums[en]["file"], enums[en]["line"], en, "each kind can be named from Python", "no enumerator of %s is bound" % en)
    return r

# ------------------------------------------------------------------ C14
STDEXC = ("exception", "runtime_error", "logic_error", "invalid_argument", "out_of_range", "domain_error", "length_error", "range_error", "overflow_error", "underflow_error", "bad_alloc", "bad_cast", "bad_typeid",
          "bad_function_call", "regex_error", "system_error", "future_error", "format_error", "bad_optional_access", "bad_variant_access", "bad_weak_ptr", "error_code", "bad_array_new_length", "bad_any_cast", "ios_base::failure")
def is_exception(P, t):
    if t is None or t < 0: return True          # rethrow
    n = P.types[t].get("s", "").replace("const ", "").strip(" &")
    if n.startswith("std::"): return any(n == "std::" + x or n.endswith("::" + x) for x in STDEXC)
    if n.startswith(("pybind11::", "py::", "boost::")): return None
    for k, rec in P.records.items():
        if rec.get("q") == n or rec.get("n") == n or k == n:
            bs = rec.get("bases", [])
            return any(is_exception(P, b) for b in bs)
    y = P.types[t]
    if y.get("k") in ("int", "ptr", "builtin", "bool", "float", "array", "enum"): return False
    if n in ("int", "char", "const char *", "char *", "bool", "double", "long", "unsigned int") or n.endswith("*") or n.endswith("]"): return False
    return None
ENDS = {"exit", "_exit", "_Exit", "quick_exit", "abort", "terminate", "__assert_fail", "raise", "kill", "__assert", "_assert", "unreachable", "__builtin_trap", "__builtin_unreachable", "__builtin_abort", "longjmp", "Py_Exit", "Py_FatalError", "Py_Finalize"}
def may_throw(P, f, seen, depth=0):
    """a construct of f or what it calls that throws and is not caught"""
    if f["key"] in seen: return None
    seen.add(f["key"])
    if f.get("noexc") and depth: return None
    def w(o, caught):
        if isinstance(o, dict):
            k = o.get("k")
            if k == "lambda": return None
            if k == "try":
                for h in o.get("h") or []:
                    x = w(h, caught)
                    if x: return x
                return None
            if k == "throw": return "throw (line %s of %s)" % (o.get("l"), f["q"])
            if k in ("mcall", "call", "ctor"):
                g = P.functions.get(o.get("f") or "")
                if g and g["n"] in ("at", "stoi", "stol", "stoll", "stoul", "get_future", "value"): return "%s (line %s of %s)" % (g["n"], o.get("l"), f["q"])
                if g and g.get("repo") and "body" in g:
                    x = may_throw(P, g, seen, depth + 1)
                    if x: return x
            for v in o.values():
                if isinstance(v, (dict, list)):
                    x = w(v, caught)
                    if x: return x
        elif isinstance(o, list):
            for v in o:
                x = w(v, caught)
                if x: return x
        return None
    return w([f.get("body"), f.get("inits")], False)

@rule("C14")
def error_discipline(P):
    """thrown objects derive from std::exception; nothing ends the process; no exception leaves a function declared not to throw or a bare thread; every handler throws again; the result of every task is collected"""
    r = Result(); E = effects(P)
    for f in repo_functions(P):
        r.functions.add(f["q"])
        if f["n"].startswith(("PyInit_", "pybind11_init")): continue
        for n in nodes([f["body"], f.get("inits")]):
            k = n["k"]
            if k == "throw":
                x = is_exception(P, n.get("tt", -1) if n.get("a") is not None else -1)
                if x is False: r.bad(f["file"], n.get("l") or f["line"], f["q"], "only exceptions are thrown", "throws an object of type %s" % P.types[n["tt"]].get("s"))
                elif x is None: r.unk("%s:%s thrown type %s" % (f["q"], n.get("l"), P.types[n["tt"]].get("s")))
                else: r.ok("%s line %s throws %s" % (f["q"], n.get("l"), P.types[n["tt"]].get("s") if n.get("tt", -1) >= 0 and n.get("a") is not None else "again"))
            if k in ("call", "mcall"):
                g = P.functions.get(n.get("f") or "")
                nm = g["n"] if g else (n.get("f") or "").split("@")[-1].split("#")[0]
                if (nm in ENDS and not (g and g.get("repo"))) or (nm in ("__assert_fail",)):
                    r.bad(f["file"], n.get("l") or f["line"], f["q"], "nothing ends the process", "calls %s" % nm)
            if k == "try":
                for h in n.get("h") or []:
                    hb = h.get("body")
                    if not any(True for _ in nodes(hb, ("throw",))) and not any((P.functions.get(c.get("f") or "") or {}).get("n") in ("rethrow_exception", "current_exception", "throw_with_nested", "rethrow_if_nested") for c in nodes(hb, ("call", "mcall"))):
                        acts = any(True for _ in nodes(hb, ("ret", "assign", "decl")))
                        if not acts: r.bad(f["file"], h.get("l") or n.get("l") or f["line"], f["q"], "no error is silently swallowed", "an exception is caught and dropped")
                        else: r.unk("%s line %s: a handler goes on without throwing" % (f["q"], h.get("l") or n.get("l")))
                    else: r.ok()
            if k == "expr" and n["e"].get("k") == "call":
                g = P.functions.get(n["e"].get("f") or "")
                if g and g["q"].split("<")[0] == "std::async": r.bad(f["file"], n.get("l") or f["line"], f["q"], "no error is silently swallowed", "the result of a task, and with it its exception, is dropped")
            if k in ("ctor", "mcall") :
                g = P.functions.get(n.get("f") or "")
                if g and (g["q"].split("<")[0] in ("std::thread::thread", "std::jthread::jthread")) and n.get("a"):
                    for lam in nodes(n["a"], ("lambda",)):
                        fake = {"key": "lambda", "q": f["q"] + " task", "body": lam.get("body")}
                        x = may_throw(P, fake, set())
                        if x: r.bad(f["file"], n.get("l") or f["line"], f["q"], "no exception leaves a bare thread", "the task of a thread may leave by %s, which ends the process" % x)
        if f.get("noexc") or f["n"].startswith("~"):
            x = may_throw(P, f, set())
            if x: r.bad(f["file"], f["line"], f["q"], "no exception leaves a function declared not to throw", "%s ends the process when it happens" % x)
            else: r.ok()
        # futures that are waited for but never asked for their result
        waits = gets = False
        for n in nodes(f["body"], ("mcall",)):
            g = P.functions.get(n.get("f") or "")
            if g and "future" in E.tname((n.get("o") or {}).get("t")):
                if g["n"] in ("wait", "wait_for"): waits = True
                if g["n"] == "get": gets = True
        if waits and not gets: r.bad(f["file"], f["line"], f["q"], "no error is silently swallowed", "tasks are waited for but their results, and with them their exceptions, are never collected")
    if any(f.get("noexc") for f in repo_functions(P) if f.get("dtor")): pass
    return r

# ------------------------------------------------------------------ C02
WIDTH = {"bool": 1, "char": 8, "signed char": 8, "unsigned char": 8, "short": 16, "unsigned short": 16, "int": 32, "unsigned int": 32, "long": 64, "unsigned long": 64, "long long": 64, "unsigned long long": 64,
         "size_t": 64, "std::size_t": 64, "size_type": 64, "__int128": 128, "int8_t": 8, "int16_t": 16, "int32_t": 32, "int64_t": 64, "uint32_t": 32, "uint64_t": 64, "long long int": 64, "difference_type": 64, "ptrdiff_t": 64}
FLOATS = ("double", "float", "long double")
def tn(P, t):
    if t is None or t < 0: return ""
    y = P.types[t]
    for _ in range(3):
        if y.get("k") in ("ref", "rref"): y = P.types[y["to"]]
    return (y.get("c") or y.get("s", "")).replace("const ", "").strip()
def wide(P, t):
    n = tn(P, t)
    if "boost::multiprecision" in n or n in ("rational_t", "rational", "scalar_t"): return 1024
    if "size" in n and "_t" in n or n.endswith("size_type"): return 0
    return 64 if n in ("long long", "long long int", "int64_t", "std::int64_t", "long", "rational_t") else 0
@rule("C02")
def exact_numbers(P):
    """no floating-point value becomes an integer or a rational or decides a branch, no 64-bit or 1024-bit number is stored in a narrower integer, the combinatorial functions return and accumulate at full width, and the rational keeps its components at 1024 bits"""
    r = Result(); E = effects(P)
    fs = [f for f in repo_functions(P) if not f["file"].endswith("timer.hpp")]
    # only what an exported function can reach matters
    api = [f for f in fs if "/api/" in f["file"]]
    R = reach(P, api)
    # functions whose address is exported
    for f in fs:
        live = f["key"] in R
        if not live: continue
        r.functions.add(f["q"])
        decls = {v["id"]: v for d in nodes(f["body"], ("decl",)) for v in d["a"] if isinstance(v, dict)}
        for p in f.get("params", []): decls[p["id"]] = p
        for n in nodes([f["body"], f.get("inits")]):
            k = n["k"]
            if k == "cast":
                a, b = n.get("from"), n.get("t")
                na, nb = tn(P, a), tn(P, b)
                if nb == "float" and na != "float":
                    r.bad(f["file"], n.get("l") or f["line"], f["q"], "numbers are written with double precision", "a %s is converted to float" % na)
                if n.get("ck") in ("FloatingToIntegral", "FloatingToBoolean"):
                    r.bad(f["file"], n.get("l") or f["line"], f["q"], "no floating-point step on the way to an exact number", "a %s is converted to %s" % (na, nb))
                elif n.get("ck") == "IntegralCast":
                    r.checked += 1
                    if wide(P, a) and WIDTH.get(nb, 64) < 64 and not positional(P, n.get("a")):
                        r.bad(f["file"], n.get("l") or f["line"], f["q"], "no conversion that drops bits on the way to an exact number", "a %s is converted to %s" % (na, nb))
                elif n.get("ck") not in ("IntegralToFloating", "FloatingCast") and wide(P, a) == 1024 and WIDTH.get(nb, 1024) <= 64:
                    r.bad(f["file"], n.get("l") or f["line"], f["q"], "no conversion that drops bits on the way to an exact number", "a %s is converted to %s" % (na, nb))
            if k in ("mcall", "call"):
                g = P.functions.get(n.get("f") or "")
                # conversion operators of the wide integer
                if g and g["n"] == "operator float" or g and tn(P, g.get("ret", -1)) == "float":
                    r.bad(f["file"], n.get("l") or f["line"], f["q"], "numbers are written with double precision", "a number is converted to float")
                if g and g["n"].startswith("operator ") and "boost" in g["q"] and tn(P, n.get("t")) in WIDTH and tn(P, n.get("t")) != "bool":
                    r.bad(f["file"], n.get("l") or f["line"], f["q"], "no conversion that drops bits on the way to an exact number", "a wide integer is converted to %s" % tn(P, n.get("t")))
                if g and g["n"] in ("lround", "llround", "lrint", "llrint"): r.bad(f["file"], n.get("l") or f["line"], f["q"], "no floating-point step on the way to an exact number", "calls %s" % g["n"])
                if g and g["n"] == "convert_to" and tn(P, n.get("t")) in WIDTH: r.bad(f["file"], n.get("l") or f["line"], f["q"], "no conversion that drops bits on the way to an exact number", "a wide integer is converted to %s" % tn(P, n.get("t")))
            if k in ("ctor", "cast") and wide(P, n.get("t")) == 1024:
                a = n.get("a"); a = a if isinstance(a, list) else [a]
                for x in a:
                    if isinstance(x, dict) and tn(P, x.get("t")) in FLOATS:
                        r.bad(f["file"], n.get("l") or f["line"], f["q"], "no floating-point step on the way to an exact number", "an exact number is made from a %s" % tn(P, x.get("t")))
            if k == "assign":
                a, b = n["a"], n["b"]
                op = n.get("op")
                ta, tb = tn(P, a.get("t")), tn(P, b.get("t"))
                if op in ("*=", "+=", "-=", "/=", "=") and WIDTH.get(ta, 64) < 64 and (wide(P, b.get("t")) and not positional(P, b)):
                    if f["n"] == "symmetry_factor": continue
                    r.bad(f["file"], n.get("l") or f["line"], f["q"], "no conversion that drops bits on the way to an exact number", "a %s is accumulated in a %s" % (tb, ta))
                if ta in WIDTH and tb in FLOATS and ta != "": r.bad(f["file"], n.get("l") or f["line"], f["q"], "no floating-point step on the way to an exact number", "a %s is accumulated in a %s" % (tb, ta))
            if k == "bin" and n.get("op") in ("<", ">", "<=", ">=", "==", "!=") and (tn(P, n["a"].get("t")) in FLOATS or tn(P, n["b"].get("t")) in FLOATS) and f["n"] != "norm":
                r.bad(f["file"], n.get("l") or f["line"], f["q"], "no floating-point step on the way to an exact number", "a decision is taken on a floating-point number")
        # products accumulated at less than the width of the result
        rw = wide(P, f.get("ret", -1))
        from_text = any("string" in tn(P, x.get("t")) for x in f.get("params", []))      # a number of any length is read
        if rw:
            for lp in nodes(f["body"], ("for", "while", "do", "rfor")):
                for n in nodes(lp.get("body"), ("assign",)):
                    a = n["a"]
                    if a.get("k") != "ref" or WIDTH.get(tn(P, a.get("t")), 1024 if wide(P, a.get("t")) == 1024 else 64) >= (1024 if rw == 1024 and from_text else 64): continue
                    prod = n.get("op") == "*=" or (n.get("op") == "=" and any(x.get("op") == "*" and any(y.get("id") == a["id"] for y in nodes(x, ("ref",))) for x in nodes(n["b"], ("bin",))))
                    if not prod: continue
                    # +-1 factors are signs
                    g = peel(n["b"])
                    if any((P.functions.get(c.get("f") or "") or {}).get("n", "").endswith(("sign", "canonicalize", "canonicalize_indices", "commute")) or "sign" in (c.get("n") or "") for c in nodes(g, ("call", "mcall", "ref"))) or (isinstance(g, dict) and g.get("k") in ("int", "cond", "un")): continue
                    if f["n"] in ("factorial", "binomial") or "sign" not in a.get("n", ""):
                        r.bad(f["file"], n.get("l") or f["line"], f["q"], "products are accumulated at full width", "'%s' of type %s accumulates a product in a function that returns %s" % (a.get("n"), tn(P, a.get("t")), tn(P, f["ret"])))
    # widths of results and parameters
    import equiv
    for name in ("factorial", "binomial"):
        for f in fs:
            if f["q"] == name:
                if not wide(P, f.get("ret", -1)): r.bad(f["file"], f["line"], f["q"], "combinatorial numbers are returned at full width", "returns %s" % tn(P, f["ret"]))
                else: r.ok("%s returns %s" % (name, tn(P, f["ret"])))
    for f in fs:
        if f["q"] in ("WickTheorem::combinatorial_factor", "Operator::factor"):
            if wide(P, f["ret"]) != 1024: r.bad(f["file"], f["line"], f["q"], "weights are exact rationals", "returns %s" % tn(P, f["ret"]))
            else: r.ok("%s returns %s" % (f["q"], tn(P, f["ret"])))
    for rec in P.records.values():
        if (rec.get("q") or rec.get("n")) == "rational":
            for fl in rec.get("fields", []):
                n = tn(P, fl["t"])
                s = P.types[fl["t"]].get("s", "")
                if "1024" in n or "1024" in s or "int1024" in s or n == "rational_t" and False: r.ok("rational::%s is %s" % (fl["n"], n[:60]))
                elif WIDTH.get(n, 0): r.bad(rec["file"], rec["line"], "rational", "the rational keeps its components at 1024 bits", "component %s has type %s" % (fl["n"], n))
                else: r.unk("width of rational::%s (%s)" % (fl["n"], n[:80]))
    return r
COMBINATORICS = ("factorial", "binomial", "symmetry_factor", "Tensor::symmetry_factor", "Operator::factor", "WickTheorem::combinatorial_factor", "integer_partitions", "permutation_sign")
@rule("C21", "C26")
def combinatorics_at_full_width(P):
    """the functions that compute factorials, binomial coefficients and weights neither convert to a narrower type nor accumulate products in one, and take no floating-point step"""
    a = exact_numbers(P); r = Result()
    r.functions = {f for f in a.functions if f in COMBINATORICS}; r.checked = max(1, len(r.functions))
    for f in a.findings:
        if f.where in COMBINATORICS: r.findings.append(f)
    return r
def positional(P, e):
    """a size, a position or a distance, not a number that enters a coefficient"""
    e = peel(e)
    if not isinstance(e, dict): return False
    if e.get("k") in ("call", "mcall"):
        g = P.functions.get(e.get("f") or "")
        return bool(g) and g["n"] in ("size", "length", "distance", "count", "find", "operator-", "max_size", "index", "max_element", "capacity", "tellg", "operator()", "count_if")
    if e.get("k") == "bin": return positional(P, e["a"]) or positional(P, e["b"])
    if e.get("k") == "un": return positional(P, e["a"])
    if e.get("k") == "cond": return positional(P, e["a"]) or positional(P, e["b"])
    return False

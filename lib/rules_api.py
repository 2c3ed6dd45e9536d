"""What Python receives from the module is a value of its own (C15), and everything Python relies on is exported (C15, C24)."""
import re
from rules import rule, Result
from rules_effects import nodes, repo_functions
import bindings as B

POLICY = {0: "automatic", 1: "automatic_reference", 2: "take_ownership", 3: "copy", 4: "move", 5: "reference", 6: "reference_internal"}
@rule("C15")
def results_are_copies(P):
    """no exported function hands out a reference into the object it is called on: return policies are the copying ones and iterators yield copies"""
    r = Result()
    for b in B.bindings(P):
        if b.kind == "init": continue
        f = b.target
        if f is None: r.unk("binding %s: target not a function or lambda" % b.q()); continue
        r.functions.add(b.q())
        pol = None
        for x in b.node["a"][2:]:
            t = P.types[x["t"]].get("s", "") if x.get("t", -1) >= 0 else ""
            if "return_value_policy" in t:
                pol = next((y["n"].split("::")[-1] for y in nodes(x, ("enum",))), None)
                if pol is None: r.unk("binding %s: return policy not a constant" % b.q())
        rt = P.types[f["ret"]] if f.get("ret", -1) >= 0 else {}
        isref = rt.get("k") in ("ref", "ptr")
        to = P.types[rt["to"]] if isref else rt
        if pol in ("reference", "reference_internal", "automatic_reference", "take_ownership") and isref and to.get("k") == "rec":
            # the object itself may be returned by an in-place operator
            if not (b.name.startswith("__i") and not to.get("const")):
                r.bad(b.file, b.line, b.q(), "results are copies", "%s returns a reference with policy %s: modifying the result from Python modifies the operand" % (b.q(), pol)); continue
        if b.kind in ("def_readwrite",): r.unk("binding %s exports a member for writing" % b.q()); continue
        if f.get("body") is None: r.unk("binding %s has no body in this program" % b.q()); continue
        it = False
        if b.lam:
            for n in nodes(f["body"], ("call",)):
                g = P.functions.get(n.get("f") or "")
                if g and g["n"] in ("make_iterator", "make_key_iterator", "make_value_iterator"):
                    it = True
                    m = re.search(r"return_value_policy(\d+)", n["f"])
                    k = POLICY.get(int(m.group(1))) if m else None
                    if k is None: r.unk("binding %s: iterator policy unknown" % b.q()); break
                    if k not in ("copy", "move"):
                        r.bad(b.file, n.get("l"), b.q(), "results are copies", "the iterator of %s yields references (policy %s): modifying a term while iterating changes keys stored in the operand" % (b.q(), k)); break
                    r.ok("%s iterates with policy %s" % (b.q(), k))
            if it: continue
        r.ok("%s returns %s" % (b.q(), "a copy" if isref else "a value"))
    return r

CONSTRUCTORS = {
    "Equation": ["SymbolicTerm,SymbolicTerm,rational"], "Expression": [""], "Index": ["int,int"],
    "Operator": ["std::string,std::vector<int>,std::vector<int>"],
    "OperatorExpression": ["std::vector<OperatorProduct>,rational", "OperatorExpression", ""],
    "SQOperator": ["SQOperatorType,Index"], "SymbolicTerm": [""], "Term": ["", "SymbolicTerm"],
    "Tensor": ["std::string,std::vector<Index>,std::vector<Index>,SymmetryType"],
    "rational": ["", "int", "int,int"],
}
DEFAULTS = {("OperatorExpression", "std::vector<OperatorProduct>,rational"): {1: "rational(1)"}}
def argtypes(s):
    """constructor<A, B> as a plain list of value types"""
    s = s[s.index("constructor<") + 12:s.rindex(">")]
    s = s.replace("std::basic_string<char, std::char_traits<char>, std::allocator<char>>", "std::string")
    s = re.sub(r", std::allocator<[^<>]*>", "", s)
    s = re.sub(r"\bconst\b|&|\s", "", s)
    return s.replace("scalar_t", "rational")
@rule("C15", "C29")
def constructors_take_what_they_store(P):
    """objects built from Python take their arguments at full type: a coefficient as a rational, an index as an index"""
    r = Result()
    have = {}; other = set()
    for b in B.bindings(P):
        if b.kind != "init": continue
        e = b.node["a"][0]; s = P.types[e["t"]].get("s", "") if e.get("t", -1) >= 0 else ""
        if "initimpl::constructor<" not in s: other.add(b.cls); continue
        have.setdefault(b.cls, {})[argtypes(s)] = b
    wide = lambda s: re.sub(r"\b(unsigned|long|longlong|short|size_t|int)\b", "int", s)
    for cls, sigs in sorted(CONSTRUCTORS.items()):
        h = have.get(cls, {})
        for sg in sigs:
            r.functions.add("%s(%s)" % (cls, sg))
            b = h.get(sg)
            if b is None:
                rest = [x for x in h if x not in sigs]
                if cls in other or not h or any(wide(x) == wide(sg) for x in rest) or not rest:
                    r.unk("constructor %s(%s) is not exported in this form" % (cls, sg)); continue
                b = h[rest[0]]
                r.bad(b.file, b.line, cls, "constructor arguments", "%s is built from (%s), not from (%s)" % (cls, rest[0], sg)); continue
            bad = None
            for k, want in DEFAULTS.get((cls, sg), {}).items():
                a = [x for x in (B.argspec(P, y) for y in b.node["a"][1:]) if x]
                if len(a) > k and a[k][1] is not None and a[k][1] != want and "?" not in a[k][1]: bad = "argument %s defaults to %s, not %s" % (a[k][0], a[k][1], want)
            if bad: r.bad(b.file, b.line, cls, "constructor arguments", bad)
            else: r.ok("%s(%s)" % (cls, sg))
    return r

"""Comparison of value-number terms: is what the code computes what the reference computes?

Verdicts: 'eq'   the two values are the same for all inputs,
          'diff' they differ, and the difference is localised in constructs both sides are made of,
          'unk'  the code uses constructs the normal form cannot relate to the reference (never an alarm)."""
import itertools, os, re
from terms import *
from terms import _sorted_ops
import terms as TM

class Verdict:
    __slots__ = ("v", "path", "code", "ref", "case", "chain")
    def __init__(self, v, path=(), code=None, ref=None, case=(), chain=()): self.v = v; self.path = tuple(path); self.code = code; self.ref = ref; self.case = tuple(case); self.chain = tuple(chain)
    def at(self, p): return Verdict(self.v, (p,) + self.path, self.code, self.ref, self.case, self.chain)
EQV = Verdict("eq")
def DIFF(c, s, why=""): return Verdict("diff", (why,) if why else (), c, s)
def UNK(c, s, why=""): return Verdict("unk", (why,) if why else (), c, s)

# ------------------------------------------------------------ linear feasibility (Fourier-Motzkin, rationals)
def feasible(rows, limit=400):
    """rows: dict var->coef plus const: sum <= const"""
    rows = [(dict(d), k) for d, k in rows]
    while True:
        for d, k in rows:
            if not d and k < 0: return False
        rows = [(d, k) for d, k in rows if d]
        if not rows: return True
        cnt = {}
        for d, _ in rows:
            for v, c in d.items():
                p = cnt.setdefault(v, [0, 0]); p[0 if c > 0 else 1] += 1
        v = min(cnt, key=lambda v: (cnt[v][0] * cnt[v][1], v.dig if isinstance(v, T) else str(v)))
        pos = [(d, k) for d, k in rows if d.get(v, 0) > 0]; neg = [(d, k) for d, k in rows if d.get(v, 0) < 0]
        new = [(d, k) for d, k in rows if v not in d]
        if len(pos) * len(neg) + len(new) > limit: return True
        for d1, k1 in pos:
            for d2, k2 in neg:
                a, b = Fraction(1, 1) / d1[v], Fraction(-1, 1) / d2[v]
                d = {}
                for x, c in d1.items():
                    if x is not v: d[x] = d.get(x, 0) + c * a
                for x, c in d2.items():
                    if x is not v: d[x] = d.get(x, 0) + c * b
                d = {x: c for x, c in d.items() if c}
                new.append((d, k1 * a + k2 * b))
        rows = new
class _V:
    """a monomial as a variable of the linear system"""
    __slots__ = ("m", "dig")
_vars = {}
def var_of(m):
    v = _vars.get(m)
    if v is None:
        v = _V(); v.m = m; v.dig = b"".join(a.dig + bytes([e % 256]) for a, e in m); _vars[m] = v
    return v
def linrow(p, k, sign=1):
    """sign*(p) <= k"""
    d = {}
    for m, c in p.args[0]:
        if m == (): k = k - sign * c
        else: d[var_of(m)] = d.get(var_of(m), 0) + sign * c
    return (d, k)
def bounds_rows(rows):
    out = []; seen = set(); todo = [v for d, _ in rows for v in d]
    while todo:
        v = todo.pop()
        if v in seen: continue
        seen.add(v)
        lo, hi = prange(mkpoly({v.m: 1}))
        if lo is not None: out.append(({v: -1}, -lo))
        if hi is not None: out.append(({v: 1}, hi))
        if len(v.m) == 1 and v.m[0][1] == 1:
            a = v.m[0][0]
            b = TM.bounds_of(a)
            if b and len(seen) < 40:
                for bb, sg in ((b[0], -1), (b[1], 1)):
                    if bb is not None and constval(bb) is None:
                        r = linrow(psub(atom(a), bb), 0, sg); out.append(r); todo += list(r[0])
    return out
def ordered(lits):
    """the comparisons of two objects are those of a total order whose equivalence is their equality (C05)"""
    o = {}
    for a, v in lits:
        if a.op != "app" or len(a.args[1]) != 2 or not isinstance(a.args[0], str): continue
        w, _, ty = a.args[0].partition(" of ")
        if w not in ("operator<", "operator=="): continue
        x, y = a.args[1]
        o.setdefault((ty,) + ((x, y) if x.dig <= y.dig else (y, x)), {})["=" if w == "operator==" else "<" if x.dig <= y.dig else ">"] = v
    for d in o.values():
        if sum(v for v in d.values()) > 1 or len(d) == 3 and not any(d.values()): return False
    return True
WHOLE = {"Index", "SQOperator", "GraphMatrix", "Operator"}   # equal objects of these classes have the same parts
def pairof(a):
    if a.op != "app" or len(a.args[1]) != 2 or not isinstance(a.args[0], str): return None
    w, _, ty = a.args[0].partition(" of ")
    x, y = a.args[1]
    return ((ty, x, y) if x.dig <= y.dig else (ty, y, x)) if w in ("operator<", "operator==") else None
def coincide(lits):
    """objects of which neither is less, or that are equal, are the same"""
    o = {}
    for a, v in lits:
        if a.op != "app" or len(a.args[1]) != 2 or not isinstance(a.args[0], str): continue
        w, _, ty = a.args[0].partition(" of ")
        if w not in ("operator<", "operator==") or ty not in WHOLE: continue
        x, y = a.args[1]
        if occurs(x, y) or occurs(y, x): continue
        k = (x, y) if x.dig <= y.dig else (y, x)
        d = o.setdefault(k, set())
        if w == "operator==" and v: return {k[1]: k[0]}
        if w == "operator<" and not v: d.add(x.dig <= y.dig)
        if len(d) == 2: return {k[1]: k[0]}
    return {}
def lits_feasible(lits):
    rows = []
    if not ordered(lits): return False
    for a, v in lits:
        if a.op == "le":
            q, k = a.args
            rows.append(linrow(q, k) if v else linrow(q, -k - 1, -1))
        elif a.op == "eq0" and v:
            rows.append(linrow(a.args[0], 0)); rows.append(linrow(a.args[0], 0, -1))
    if not rows: return True
    return feasible(rows + bounds_rows(rows))

def firsts(lits):
    """what holds of the first element for which a condition holds agrees with the literals"""
    fs = {x for a, _ in lits for x in subterms(a, set()) if x.op == "first"}
    if not fs: return True
    known = {a for a, v in lits if a.op == "any" and v}
    todo = True
    while todo:
        todo = False
        for f in list(fs):
            for k in known:
                if k.args[0] is f.args[0] and k.args[2] is f.args[2]:
                    fs.discard(f)
                    b = inst(k, atom(f))
                    y = single_atom(b)
                    if y is not None and y.op == "any": known.add(y); todo = True; break
                    for a, v in lits:
                        if a.op != "poly": b = assume(b, a, v)
                    if b is ZERO: return False
                    break
    return True
def equality(lits):
    """a substitution implied by the literals, or None"""
    les = {}
    for a, v in lits:
        if a.op == "le":
            q, k = a.args
            e = les.setdefault(q, [None, None])
            if v: e[1] = k if e[1] is None else min(e[1], k)
            else: e[0] = k + 1 if e[0] is None else max(e[0], k + 1)
        elif a.op == "eq0" and v:
            les.setdefault(a.args[0], [0, 0])
    for q, (lo, hi) in sorted(les.items(), key=lambda x: x[0].dig):
        a = single_atom(q)
        if len(q.args[0]) == 1 and all(x.op == "par" for x, _ in q.args[0][0][0]) and q.args[0][0][1] == 1:
            val = -1 if hi is not None and hi < 1 else 1 if lo is not None and lo > -1 else None
            if val is not None:
                x = max((x for x, _ in q.args[0][0][0]), key=lambda x: (x.size, x.dig))
                r = const(val)
                for y, _ in q.args[0][0][0]:
                    if y is not x: r = pmul(r, atom(y))
                if not occurs(x, r): return {x: r}
        l2, h2 = prange(q)
        if lo is None or (l2 is not None and l2 > lo): lo = l2
        if hi is None or (h2 is not None and h2 < hi): hi = h2
        if lo is None or lo != hi: continue
        a = single_atom(q)
        if a is not None and a.op == "len" and lo == 0:
            m = {a: ZERO}
            if a.args[0].op not in ("cat", "el", "entries"): m[a.args[0]] = EMPTY
            return m
        if a is not None and a.op == "cmp" and lo == 0:
            x, y = a.args
            if x.size < y.size or (x.size == y.size and x.dig < y.dig): x, y = y, x
            if not occurs(x, y) and not (x.op == "cat" or x.op == "el"): return {a: ZERO, x: y}
            continue
        for mo, c in sorted(q.args[0], key=lambda mc: (-sum(x.size for x, _ in mc[0]), tuple(x.dig for x, _ in mc[0]))):
            if len(mo) == 1 and mo[0][1] == 1 and c in (1, -1) and not isbool(mo[0][0]) and mo[0][0].op in ("sym", "field", "at", "mget", "len", "app", "bv", "sum"):
                b = mo[0][0]
                rest = psub(const(lo), mkpoly({m: k for m, k in q.args[0] if m != mo}))
                if c == -1: rest = pneg(rest)
                if not occurs(b, rest):
                    r = {b: rest}
                    # zero has the denominator one
                    if b.op == "field" and b.args[1] == "numerator_" and constval(rest) == 0: r[single_atom(TM.field(b.args[0], "denominator_", b.args[-1]))] = ONE
                    return r
    return None
def occurs(a, t):
    if t is a: return True
    if isinstance(t, tuple): return any(occurs(a, x) for x in t)
    if not isinstance(t, T): return False
    if t.size < a.size: return False
    return any(occurs(a, x) for x in t.args if isinstance(x, (T, tuple)))

# ------------------------------------------------------------ vocabulary
def subterms(t, out):
    if isinstance(t, tuple):
        for x in t: subterms(x, out)
    elif isinstance(t, T) and t not in out:
        out.add(t)
        for x in t.args: subterms(x, out)
    return out
def is_path(t):
    """access path rooted at an input or bound variable"""
    while True:
        if t.op in ("sym", "bv"): return True
        if t.op == "field": t = t.args[0]; continue
        if t.op == "entries": t = t.args[0]; continue
        if t.op == "at":
            if not all(all(is_path(a) or isbool(a) or a.op == "len" for a, _ in m) for m, _ in t.args[1].args[0]): return False
            t = t.args[0]; continue
        return False

def top_bools(t, out, depth=0):
    """condition atoms that decide the outermost shape of t"""
    if t.op == "poly":
        for m, c in t.args[0]:
            for a, _ in m:
                if isbool(a): out.add(a)
    elif t.op == "ite":
        out.add(t.args[0]); top_bools(t.args[1], out); top_bools(t.args[2], out)
    elif t.op == "lin": top_bools(t.args[0], out)
    elif t.op in ("cat",):
        for p in t.args:
            if p.op == "ite": top_bools(p, out)
    return out
def base_atoms(a):
    """atoms a condition is made of"""
    if a.op in ("le", "eq0"):
        out = set()
        for m, c in a.args[0].args[0]:
            for x, _ in m:
                if isbool(x): out |= base_atoms(x)
                else: out.add(x)
        return out
    return {a}

def stored_on(t):
    """the map or sequence a chain of stores starts from"""
    while isinstance(t, T):
        if t.op in ("mset", "mdel", "upd"): t = t.args[0]
        elif t.op == "ite":
            a, b = stored_on(t.args[1]), stored_on(t.args[2])
            return a if a is b else None
        else: return t
_skel = {}
def skeleton(t):
    """the operations a term is made of, whatever they are applied to"""
    if isinstance(t, tuple): return tuple(skeleton(x) for x in t)
    if not isinstance(t, T): return t
    r = _skel.get(t)
    if r is None:
        if t.op in ("sym", "bv") or is_path(t): r = "v"
        elif t.op == "poly": r = ("poly",) + tuple(sorted(tuple(sorted(str(skeleton(a)) for a, e in m)) for m, c in t.args[0] if m))
        elif t.op == "le": r = ("le", skeleton(t.args[0]))
        elif t.op in LOOPY: r = (t.op,) + tuple(skeleton(x) for x in t.args if not isinstance(x, int) and not (isinstance(x, tuple) and x and isinstance(x[0], int)))
        else: r = (t.op,) + tuple(skeleton(x) for x in t.args)
        r = hash(str(r)) if t.op not in ("sym", "bv") else r
        _skel[t] = r
    return r
LOOPY = ("fold", "mu", "any", "first", "sum", "prod", "cmap", "sort", "perm", "lam")
def simple(t, vocab):
    """made of inputs and operations the reference also uses (or plain accesses and comparisons)"""
    if isinstance(t, tuple): return all(simple(x, vocab) for x in t)
    if not isinstance(t, T): return True
    if t in vocab: return True
    if t.op in LOOPY: return ("skeleton", skeleton(t)) in vocab
    if t.op == "app" and t.args[0] not in vocab and t.args[0] not in ("max0", "inv", "idiv", "mod"): return False
    if t.op in ("bad", "undef"): return False
    return all(simple(x, vocab) for x in t.args if isinstance(x, (T, tuple)))

def lits_about(lits, p):
    """a condition in force mentions a part of the value"""
    at = {a for m, _ in p.args[0] for a, _ in m}
    return any(at & subterms(q, set()) for q, _ in lits)
def total(t, X, ranges):
    """X occurs in t only in totals over all its elements"""
    if isinstance(t, tuple): return all(total(x, X, ranges) for x in t)
    if not isinstance(t, T): return True
    if t is X: return False
    if t.op == "len" and t.args[0] is X: return True
    if t.op in ("sum", "any"):
        n, h, b = t.args
        if X in subterms(b, set()):
            if n is not length(X) or not total(n, X, ranges): return False
            v = bvsym(h, "n")
            def only(z):
                if isinstance(z, tuple): return all(only(q) for q in z)
                if not isinstance(z, T): return True
                if z is X: return False
                if z.op == "at" and z.args[0] is X: return single_atom(z.args[1]) is v or z.args[1] is v
                return all(only(q) for q in z.args if isinstance(q, (T, tuple)))
            return only(b)
    return all(total(x, X, ranges) for x in t.args if isinstance(x, (T, tuple)))
DOMINATE = True
class Comparer:
    MAXCASE = 9
    def __init__(self, budget=4000): self.memo = {}; self.budget = budget; self.lits = []; self.vocab = set(); self.equiv = {}; self.trial = 0
    def run(self, c, s, given=ONE):
        self.vocab = set(subterms(s, set()))
        for t in list(self.vocab):
            if t.op == "app": self.vocab.add(t.args[0])
            elif t.op in LOOPY: self.vocab.add(("skeleton", skeleton(t)))
        lits = conj_literals(given) if given is not ONE else []
        g = given
        for a, v in lits: c = assume(c, a, v); s = assume(s, a, v); g = assume(g, a, v)
        if g is ZERO: return EQV
        # what remains of the precondition travels along as a literal (a polynomial that is one)
        if constval(g) is None: lits = list(lits) + [(g, True)]
        r = self.cmp(c, s, tuple(lits))
        return self.short(c, s, tuple(lits), r) if r.v == "unk" else r
    def short(self, c, s, lits, r):
        """what is left open may differ already where the one list both values are about has two elements"""
        if not isinstance(c, T) or not isinstance(s, T): return r
        ls = [{x for x in subterms(t, set()) if x.op == "len"} for t in (c, s)]
        ls = [x for x in ls[0] & ls[1] if is_path(x.args[0]) and not any(y.op == "bv" for y in subterms(x, set()))]
        if len(ls) != 1 or lits and any(ls[0] in subterms(a, set()) for a, _ in lits): return r
        for k in (2, 3):
            m = self.written({ls[0]: const(k)}, c, s)
            if len(m) != 2: return r
            c2, s2 = replace(c, m), replace(s, m)
            if c2 is s2: continue
            old = self.budget; self.budget = 2000
            x = self.cmp(c2, s2, lits)
            self.budget = old
            if x.v == "diff" and all(a.op == "sym" or a.op == "app" and a.args[0].startswith("operator") for a, _ in x.case) and not any(z.op == "app" and not z.args[0].startswith("operator") for t in (c2, s2) for z in subterms(t, set())): return Verdict("diff", x.path, x.code, x.ref, ((single_atom(TM.le(atom(ls[0]), k)), 1), (single_atom(TM.le(atom(ls[0]), k - 1)), 0)) + x.case, x.chain)
        return r
    def withlit(self, lits, a, v):
        """literals extended by a=v, or None if the precondition excludes it"""
        out = []
        for x, w in lits:
            if x.op == "poly":
                x = assume(x, a, v)
                if x is ZERO: return None
                if x is ONE: continue
            out.append((x, w))
        return tuple(out) + ((a, v),)
    def cmp(self, c, s, lits=()):
        if c is s: return EQV
        self.budget -= 1
        if self.budget < 0: return UNK(c, s, "comparison too large")
        key = (c, s, lits)
        r = self.memo.get(key)
        if r is None:
            self.memo[key] = UNK(c, s, "cyclic comparison")
            r = self.cmp1(c, s, lits)
            if r.v == "diff" and lits and not firsts(lits): r = EQV
            if r.v == "diff" and isinstance(r.ref, T) and any(x.op == "at" and x.args[0] is EMPTY for x in subterms(r.ref, set())): r = UNK(r.code, r.ref, "an element of nothing")
            if r.v == "diff" and isinstance(c, T) and isinstance(s, T): r = Verdict(r.v, r.path, r.code, r.ref, r.case, r.chain + ((c, s),))
            self.memo[key] = r
        return r
    def cmp1(self, c, s, lits):
        if ispoly(c) != ispoly(s): return UNK(c, s, "kinds differ")
        return self.cases(c, s, lits)
    # ---------------------------------------------------- case distinctions
    def orderless(self, c, us, lits):
        """a sequence compared element by element, where the result only depends on totals over its elements"""
        for a in us:
            x = single_atom(a.args[0]) if a.op == "le" else a
            if x is None or x.op != "cmp": continue
            X = x.args[0]
            if ispoly(X) or not is_path(X) or any(x2 is X for q, _ in lits for x2 in subterms(q, set())): continue
            n = length(X)
            if constval(n) is not None and constval(n) < 2: continue
            if X in subterms(c, set()) and total(c, X, set()): return True
        return False
    def unsorted(self, t):
        """(a part of) an element of a sorted sequence, taken from the sequence as it was before"""
        fs = []
        while t.op == "field": fs.append((t.args[1], t.args[2])); t = t.args[0]
        if t.op != "at" or t.args[0].op != "sort": return None
        r = at(t.args[0].args[0], t.args[1], t.args[-1])
        for n, so in reversed(fs): r = field(r, n, so)
        return r
    def forget(self, t):
        """what a sorted or repetition-free sequence was made from"""
        fs = []
        while True:
            if t.op == "sort": fs.append("sort"); t = t.args[0]
            elif t.op == "app" and t.args[0] in ("unique", "wpy::distinct"): fs.append("unique"); t = t.args[1][0]
            else: return t, fs
    def is_len(self, p):
        a = single_atom(p)
        return a is not None and a.op == "len" and is_path(a.args[0])
    def converse(self, a):
        """y < x for x < y, where the condition by which the elements were found is that one of them holds"""
        if a.op != "app" or "operator<" not in str(a.args[0]): return None
        if len(a.args[1]) != 2: return None
        b = single_atom(TM.app(a.args[0], (a.args[1][1], a.args[1][0]), a.args[2]))
        if b is None or b is a: return None
        one = psub(padd(atom(a), atom(b)), pmul(atom(a), atom(b)))
        for f in subterms(a, set()):
            if f.op == "first" and inst(f, atom(f)) is one: return b
        return None
    def cases(self, c, s, lits):
        A, B = top_bools(c, set()), top_bools(s, set())
        if not A and not B: return self.heads(c, s, lits)
        if not ispoly(s) and s.op == "cmap" and c.op in ("cat", "el", "ite") and self.atmost(parts(c), parts(s), lits): return DIFF(c, s, "no more than a fixed number of elements")
        if (not B) != (not A) and ispoly(c) and ispoly(s):
            # the sign of a parity is the parity itself
            if not A:
                r = self.signs(s, B)
                if r is not s: return self.cmp(c, r, lits)
            else:
                r = self.signs(c, A)
                if r is not c: return self.cmp(r, s, lits)
        bc = set().union(*[base_atoms(a) for a in A]) if A else set()
        bs = set().union(*[base_atoms(a) for a in B]) if B else set()
        allc, alls = subterms(c, set()), subterms(s, set())
        uc = sorted([a for a in bc if a not in alls], key=lambda a: a.dig); us = sorted([a for a in bs if a not in allc], key=lambda a: a.dig)
        pend = None; nk = []
        if uc and us:
            # comparisons of the same two objects depend on each other
            both = {pairof(a) for a in uc} & {pairof(a) for a in us} - {None}
            if both: uc, us = [a for a in uc if pairof(a) not in both], [a for a in us if pairof(a) not in both]
        for a in uc:
            b = self.converse(a)
            if b is not None and b in us:
                # where exactly one of x < y, y < x holds
                c2 = replace(c, {a: psub(ONE, atom(b))})
                if c2 is not c: return self.cmp(c2, s, lits)
        if uc and us and len(uc) + len(us) > 2 and all(a.op == "par" for a in uc + us):
            # signs are multiplied: one exponent for each side
            e = [ZERO, ZERO]
            for k, l in enumerate((uc, us)):
                for a in l: e[k] = padd(e[k], a.args[0])
            r = self.parity(self.cmp(e[0], e[1], lits))
            if r.v == "diff": return r.at("exponent of a sign").at("condition")
        if uc and us:
            # pair the atoms that occur on one side only
            m = {}; rest = list(us)
            for a in uc:
                best = None
                for b in rest:
                    if self.shape(a) != self.shape(b): continue
                    r = self.cmp_atom(a, b, lits)
                    sc = {"eq": 0, "diff": 1, "unk": 2}[r.v]
                    if best is None or sc < best[0]: best = (sc, b, r)
                if best is None:
                    if self.orderless(c, us, lits): return DIFF(atom(a), s, "independent of the order of the elements")
                    if not simple(a, self.vocab): return UNK(atom(a) if isbool(a) or not a.op == "s" else a, s, "condition without counterpart")
                    continue
                rest.remove(best[1])
                if best[0] == 0:
                    if a is not best[1]: m[a] = atom(best[1])
                elif best[0] == 1: pend = pend or best[2].at("condition")
                else: return best[2].at("condition")
            if pend: return pend
            if m:
                c2 = replace(c, m)
                if c2 is not c: return self.cmp(c2, s, lits)
        elif uc and not us:
            nk = [a for a in uc if not simple(a, self.vocab) and not self.related(a, alls, lits)]
            if nk and self.orderless(c, A | B, lits): return DIFF(c, s, "independent of the order of the elements")
            if nk and not ((A | B) - set(nk) and all(pairof(a) and all(is_path(x) for x in a.args[1]) for a in nk)): return self.filtered(c, s, nk, A, lits)
        atoms = A | B
        if len(atoms) > 14: return UNK(c, s, "too many conditions")
        # split on the smallest condition
        a = min(atoms - set(nk) or atoms, key=lambda x: (x.size, x.dig))
        worst = EQV; open_ = None
        for v in (True, False):
            l2 = self.withlit(lits, a, v)
            if l2 is None or not lits_feasible(l2): continue
            c2, s2 = assume(c, a, v), assume(s, a, v)
            if c2 is s2: continue
            m = coincide(l2)
            if m and all(v.op in ("at", "field", "sym", "bv") and k.op in ("at", "field", "sym", "bv") for k, v in m.items()): c2, s2 = replace(c2, m), replace(s2, m)
            m = self.written(equality(l2), c2, s2)
            n = 0
            while m and n < 4:
                c3, s3 = replace(c2, m), replace(s2, m)
                n += 1
                l3 = tuple(x for x in self.replits(l2, m))
                if c3 is c2 and s3 is s2 and not (l3 and l3[0] is None): break
                c2, s2, l2 = c3, s3, l3
                if l2 and l2[0] is None: break
                m = self.written(equality(l2), c2, s2)
            if l2 and l2[0] is None: continue
            r = self.cmp(c2, s2, l2)
            if r.v == "unk":
                if not DOMINATE or a not in A or a not in B: return r
                open_ = r; continue
            if r.v == "diff" and a.op == "at" and self.of_state(a): return UNK(c, s, "depends on the contents of a table being filled")
            if r.v == "diff" and worst.v == "eq": worst = Verdict("diff", r.path, r.code, r.ref, ((a, v),) + r.case, r.chain)
        return worst if worst.v == "diff" else open_ or worst
    def related(self, a, alls, lits):
        """a comparison of two objects of which the other side, too, compares the same two"""
        k = pairof(a)
        return k is not None and any(pairof(b) == k for b in list(alls) + [x for x, _ in lits] if b.op == "app")
    def written(self, m, c, s):
        """a list whose length is known (at most 3) is written out"""
        if not m: return m
        for a, v in list(m.items()):
            k = constval(v)
            if a.op != "len" or k is None or not 0 < k <= 3 or not is_path(a.args[0]): continue
            q = a.args[0]
            so = {x.args[-1] for t in (c, s) for x in subterms(t, set()) if x.op == "at" and x.args[0] is q}
            if len(so) == 1:
                so, = so
                m = dict(m); m[q] = TM.cat(*[TM.el(TM.at(q, const(j), so)) for j in range(k)])
        return m
    def parity(self, r):
        """a difference of two exponents matters only if it is odd"""
        if r.v == "diff" and r.path and r.path[-1] == "value" and isinstance(r.code, T) and isinstance(r.ref, T) and ispoly(r.code) and ispoly(r.ref) and TM.mod2(psub(r.code, r.ref)) is ZERO: return UNK(r.code, r.ref, "even difference")
        return r
    def signs(self, c, A):
        m = {a: pscale(psub(ONE, a.args[0]), Fraction(1, 2)) for a in A if a.op == "le" and a.args[1] == 0 and len(a.args[0].args[0]) == 1 and a.args[0].args[0][0][1] == 1 and all(x.op == "par" and e == 1 for x, e in a.args[0].args[0][0][0])}
        return replace(c, m) if m else c
    def fractional(self, t):
        return any(x.op == "poly" and any(isinstance(k, Fraction) for _, k in x.args[0]) for x in subterms(t, set()))
    def of_entries(self, a):
        while a.op in ("at", "field"): a = a.args[0]
        return a.op == "entries"
    def of_state(self, a):
        while a.op in ("at", "field"): a = a.args[0]
        return a.op == "sym" and "#" in a.args[0] and a.args[0].startswith("s#")
    def filtered(self, c, s, nk, A, lits):
        """conditions only the code has, of a kind the reference does not know: a case distinction with equal results,
        or a filter, which does what the reference does when it holds and nothing otherwise"""
        unk = UNK(c, s, "condition of a new kind")
        def degenerate(a, v):
            if a.op in ("any", "first", "cmp", "mhas", "eq0"): return True
            if a.op == "le":
                if not all(x.op == "len" for x in base_atoms(a) if x in nk): return False
                # a special case for short inputs may come out the same by itself; one for long inputs does not
                co = {k > 0 for m, k in a.args[0].args[0] if m}
                return len(co) != 1 or v == co.pop()
            return a.op == "app" and ("==" in a.args[0] or "!=" in a.args[0])
        tops = [a for a in A if base_atoms(a) & set(nk)]
        if not tops: return unk
        a = min(tops, key=lambda x: (x.size, x.dig))
        rs = []
        for v in (True, False):
            l2 = self.withlit(lits, a, v)
            if l2 is None or not lits_feasible(l2): continue
            c2, s2 = assume(c, a, v), assume(s, a, v)
            r = EQV if c2 is s2 else self.cmp(c2, s2, l2)
            if r.v == "unk": return unk if r.path and r.path[-1] == "condition of a new kind" else r
            rs.append((v, r))
        bad = [(v, r) for v, r in rs if r.v == "diff"]
        if not bad: return EQV
        if len(bad) == len(rs) and len(bad) == 2 and all(isinstance(r.code, T) and isinstance(r.ref, T) and ispoly(r.code) and ispoly(r.ref) and constval(r.code) is not None and constval(r.ref) is None and r.path and r.path[-1] == "value" for _, r in bad): return unk      # the condition may say what the reference computes
        if len(bad) == len(rs): return Verdict("diff", bad[0][1].path, bad[0][1].code, bad[0][1].ref, ((a, bad[0][0]),) + bad[0][1].case, bad[0][1].chain)
        v, r = bad[0]
        if r.path and r.path[-1] == "another number format": return Verdict("diff", ("only if",) + r.path, r.code, r.ref, ((a, v),) + r.case, r.chain)
        if degenerate(a, v): return unk
        if a.op == "le" and all(x.op == "len" for x in base_atoms(a) if x in nk): return Verdict("diff", ("for longer inputs",) + r.path, r.code, r.ref, ((a, v),) + r.case, r.chain)
        if self.threshold(a, r): return Verdict("diff", ("only if",) + r.path, r.code, r.ref, ((a, v),) + r.case, r.chain)
        x = r.code
        nothing = isinstance(x, T) and (constval(x) is not None if ispoly(x) else x.op == "mempty" or x.op == "cat" and not parts(x)) or isinstance(x, T) and is_path(single_atom(x) or x if ispoly(x) else x)
        if nothing or r.path and r.path[-1].startswith(("missing", "part left out", "nothing stored", "operation left out")):
            return Verdict("diff", ("only if",) + r.path, r.code, r.ref, ((a, v),) + r.case, r.chain)
        return unk
    def threshold(self, a, r):
        """the sign or size of one input decides, and what differs is a plain value that this input says nothing about"""
        if a.op != "le" or not r.path or r.path[-1] != "value" or not isinstance(r.code, T) or not isinstance(r.ref, T) or not ispoly(r.code) or not ispoly(r.ref): return False
        q = [(m, k) for m, k in a.args[0].args[0] if m]
        if len(q) != 1 or len(q[0][0]) != 1: return False
        x = q[0][0][0][0]
        if not is_path(x) and not (x.op == "app" and all(is_path(single_atom(y) if ispoly(y) and single_atom(y) else y) for y in x.args[1] if isinstance(y, T))): return False
        signed = x.op == "app" and x.args[0] in ("rational::numerator", "rational::to_double")
        for m, _ in psub(r.code, r.ref).args[0]:
            for y, _ in m:
                z = y.args[0] if y.op == "basis" else y
                if not is_path(z): return False
                if not signed and occurs(z, a): return False
        return True
    def replits(self, lits, m):
        """literals under a substitution; (None,) if contradictory"""
        out = []
        for a, v in lits:
            p = replace(a if a.op == "poly" else atom(a), m)
            cv = constval(p)
            if cv is not None:
                if bool(cv) != v: return (None,)
                continue
            if a.op == "poly": out.append((p, True)); continue
            b = single_atom(p)
            if b is not None and isbool(b): out.append((b, v)); continue
            b = single_atom(pnot(p))
            if b is not None and isbool(b): out.append((b, not v)); continue
        # keep the equalities themselves out: they have been used
        return tuple(out)
    def shape(self, a):
        if a.op == "app": return ("app", a.args[0] if a.args[0] in ("idiv", "mod", "inv", "max0") else "f", a.args[-1])
        if a.op in ("sym", "field", "at", "mget", "bv"): return ("path", a.args[-1])
        return (a.op,)
    def cmp_atom(self, a, b, lits):
        if a is b: return EQV
        return self.heads(a, b, lits)
    # ---------------------------------------------------- heads
    def all(self, pairs, lits, inj=False):
        """pairs of (label, code, reference); inj: a difference in one of them cannot be made up for by another"""
        d = None; u = None
        for lab, x, y in pairs:
            if x is y: continue
            if isinstance(x, tuple) and isinstance(y, tuple):
                if len(x) != len(y): return UNK(None, None, lab + ": arity")
                r = self.all([("%s.%d" % (lab, k), p, q) for k, (p, q) in enumerate(zip(x, y))], lits, inj)
            elif not isinstance(x, T) or not isinstance(y, T):
                if x == y: continue
                return UNK(None, None, "%s: %s / %s" % (lab, x, y))
            else: r = self.cmp(x, y, lits)
            if r.v == "unk":
                if not inj: return r.at(lab)
                u = u or r.at(lab)
            if r.v == "diff" and d is None: d = r.at(lab)
        return d or u or EQV
    def heads(self, c, s, lits):
        if c is s: return EQV
        if ispoly(c) and ispoly(s): return self.polys(c, s, lits)
        if c.op == "ite" or s.op == "ite": return self.cases(c, s, lits)
        if c.op == "rec" and s.op == "rec": return self.recs(c, s, lits)
        if c.op == "rec" or s.op == "rec":
            r = self.recpath(c, s, lits)
            if r: return r
        for x, y, o in ((c, s, 0), (s, c, 1)):
            if y.op == "cmap" and (is_path(x) or x.op == "slice") and y.args[0] is length(x) and self.possible(length(x), 1, lits):
                # element by element
                v = fresh("n", "i"); set_bounds(single_atom(v), ZERO, psub(length(x), ONE))
                p, q = el(at(x, v, "s")), inst(y, v)
                r = self.cmp(*((p, q) if o == 0 else (q, p)), lits)
                return r.at("element") if r.v != "eq" else UNK(c, s, "different constructs")
        r = self.leftout(c, s, lits) or self.onestep(c, s, lits)
        if r: return r
        for x, y, w in ((c, s, "extra"), (s, c, "missing")):
            if x.op == "sort" and x.args[0] is y and y.op == "cat" and len(y.args) > 1: return DIFF(c, s, w + " sort")
        if c.op in ("cat", "el") or s.op in ("cat", "el"): return self.seqs(c, s, lits)
        if c.op in BINDERS and s.op == c.op: return self.binders(c, s, lits)
        if c.op in ("fold", "mu", "lam") and s.op == c.op: return self.multi(c, s, lits)
        if c.op == "app" and s.op == "app": return self.apps(c, s, lits)
        if c.op == "lin" or s.op == "lin":
            if all(x.op in ("lin", "mempty") or is_opaque(x) for x in (c, s)): return self.polys_or_cases(tolin(c), tolin(s), lits).at("linear combination")
        if c.op == s.op == "mset": return self.all([("map", c.args[0], s.args[0]), ("key", c.args[1], s.args[1]), ("value", c.args[2], s.args[2])], lits)
        if c.op == s.op == "le":
            return self.polys(psub(c.args[0], const(c.args[1])), psub(s.args[0], const(s.args[1])), lits).at("bound")
        if c.op == s.op == "par":
            r = self.parity(self.cmp(c.args[0], s.args[0], lits))
            if r.v == "diff" and (isinstance(r.code, T) and self.fractional(r.code) or isinstance(r.ref, T) and self.fractional(r.ref)): return UNK(c, s, "parity of a fraction")
            return r.at("par argument 0")
        if c.op == s.op == "sort":
            r = self.all([("sort argument 0", c.args[0], s.args[0])], lits)
            if r.v == "diff" and ("index" in r.path or r.path[-1] == "order of the parts"): return UNK(c, s, "sorted from another order")
            return r if r.v != "eq" else self.all([("sort argument 1", c.args[1], s.args[1])], lits)
        if c.op == s.op == "slice":
            r = self.all([("slice argument %d" % k, x, y) for k, (x, y) in enumerate(zip(c.args, s.args))], lits)
            return UNK(c, s, "store outside of a part") if r.v == "diff" and r.path[-1].endswith(" upd") else r
        if c.op == s.op == "cmp":
            # sets of elements compared instead of sequences
            for p, q in ((c, s), (s, c)):
                (x, fx), (y, fy) = self.forget(p.args[0]), self.forget(p.args[1])
                if fx == fy and "unique" in fx and any(x is u and y is v for u, v in ((q.args[0], q.args[1]), (q.args[1], q.args[0]))): return DIFF(c, s, "compared as sets")
        if c.op == s.op and c.op in ("len", "entries", "basis", "linof", "par", "cmp", "eq0", "el", "sort", "upd", "slice", "mdel", "mhas", "keepsize"):
            return self.all([("%s argument %d" % (c.op, k), x, y) for k, (x, y) in enumerate(zip(c.args, s.args))], lits)
        if c.op == s.op == "field":
            if c.args[1] == s.args[1]: return self.all([("." + c.args[1], c.args[0], s.args[0])], lits)
            if c.args[0] is s.args[0]: return DIFF(c, s, "another member")
        if c.op == s.op == "at":
            r = self.all([("element of", c.args[0], s.args[0]), ("index", c.args[1], s.args[1])], lits)
            return r
        if c.op == s.op == "mget": return self.all([("map", c.args[0], s.args[0]), ("key", c.args[1], s.args[1])], lits)
        if {c.op, s.op} == {"mset", "mdel"} and c.args[0] is s.args[0] and c.args[1] is s.args[1]: return DIFF(c, s, "entry stored" if c.op == "mset" else "entry removed")
        if s.op == "mempty":
            if is_path(c) and self.possible(length(entries(c)), 1, lits): return DIFF(c, s, "not emptied")
            if c.op == "fold" and self.keeps(c, lits): return DIFF(c, s, "entries kept")
        if c.op == "mempty" and is_path(s) and self.possible(length(entries(s)), 1, lits) and not any(x in y.op for a, _ in lits for y in subterms(a, set()) for x in ("any", "first")): return DIFF(c, s, "emptied")
        for x, y, w in ((c, s, "a part instead of the whole"), (s, c, "the whole instead of a part")):
            if x.op == "slice" and x.args[0] is y and is_path(y) and all(constval(k) is not None or single_atom(k) is not None and single_atom(k).op == "len" for k in x.args[1:3]) and any(constval(k) not in (None, 0) for k in x.args[1:3]) and self.possible(length(y), 6, lits): return DIFF(c, s, w)
        # a store, insertion or sort that one side lacks
        for x, y, w in ((c, s, "extra"), (s, c, "missing")):
            if x.op in ("mset", "mdel", "upd", "sort") and (x.args[0] is y or stored_on(x) is y):
                if w == "extra" and x.op == "mset" and any(a.op == "mhas" and v and a.args[1] is x.args[1] and self.of_entries(x.args[1]) for a, v in lits): return UNK(c, s, "entries of one map put into another")
                if w == "missing" or simple(x.args[1:], self.vocab): return DIFF(c, s, "%s %s" % (w, x.op))
        if is_path(c) and is_path(s): return DIFF(c, s, "another object")
        for x, y, w in ((c, s, "sorted"), (s, c, "not sorted")):
            if self.unsorted(x) is y: return DIFF(c, s, w)
        for x, y, w in ((c, s, "an element instead of its position"), (s, c, "a position instead of the element there")):
            if x.op == "at" and x.args[-1] == "n" and x.args[0] in self.vocab and single_atom(x.args[1]) is y and y.op in ("sym", "bv") and not any(y in subterms(a, set()) for a, _ in lits): return DIFF(c, s, w)
        if c.op == "undef" and is_path(s): return DIFF(c, s, "an entry that was never stored")
        for x, y in ((c, s), (s, c)):
            if is_path(x) and y.op == "mget" and is_path(y.args[0]) and is_path(y.args[1]) and not any(occurs(y, a) or occurs(y.args[0], a) and a.op != "mhas" for a, _ in lits): return DIFF(c, s, "looked up in a map" if y is c else "not looked up in the map")
        if c.op == "mempty" and s.op in ("mset",): return DIFF(c, s, "nothing stored")
        if is_path(c) and s in self.vocab and s.op in ("app",) and occurs(c, s): return DIFF(c, s, "operation left out")
        if is_path(s) and c.op == "app" and c.args[0] in self.vocab and occurs(s, c): return DIFF(c, s, "additional operation")
        if c in self.vocab and not lits:
            m, n = TM.elemlen(c), TM.elemlen(s)
            if m is not None and n is not None and m is not n and all(self.is_len(z) for z in (m, n)): return DIFF(c, s, "a list over other objects")
        for x, y in ((c, s), (s, c)):
            if x.op == "slice" and x.args[0] is y and all(TM.constval(z) is not None for z in x.args[1:3]) and (y.op == "app" or is_path(y)) and not any(occurs(y, a) for a, _ in lits): return DIFF(c, s, "only a part of the list")
        r = self.fewsteps(c, s, lits)
        if r: return r
        return UNK(c, s, "different constructs")
    def fewsteps(self, c, s, lits):
        """a loop against something that is no loop: what is there after no step and after one"""
        f = c if c.op == "fold" else s
        if f.op != "fold" or c.op == s.op == "fold" or not isinstance(f.args[4], int): return None
        k = f.args[4]; n = f.args[2][0]; na = single_atom(n)
        if constval(n) is not None or na is None or k >= len(f.args[3]): return None
        start = f.args[2][1 + k]
        first = {bvsym(h, so): x for h, so, x in zip(f.args[0], f.args[1], (ZERO,) + tuple(f.args[2][1:]))}
        for steps, val in ((0, start), (1, subst(f.args[3][k], first))):
            if not isinstance(val, T) or ispoly(val) != ispoly(c): return None
            x, y = (val, s) if f is c else (c, val)
            l2 = lits
            for z, w in tuple(conj_literals(lt(const(steps - 1), n))) + tuple(conj_literals(TM.leq(n, const(steps)))):
                if l2 is not None and any(z is q and w != u for q, u in l2): l2 = None
                if l2 is not None: l2 = self.withlit(l2, z, w)
            if l2 is None or not lits_feasible(tuple(q for q in l2 if q[0].op != "poly")): continue
            if na.op == "sym": put = lambda z: subst(z, {na: const(steps)})
            elif na.op == "len":
                m = {na: const(steps)}
                if steps == 0 and na.args[0].op not in ("cat", "el", "entries"): m[na.args[0]] = EMPTY
                put = lambda z: replace(z, m)
            else: put = None
            if put:
                x, y = put(x), put(y); l3 = ()
                for q, u in l2:
                    t = put(q if q.op == "poly" else atom(q))
                    if not u: t = pnot(t)
                    if t is ZERO: l3 = None; break
                    if t is ONE: continue
                    ls = conj_literals(t)
                    l3 += tuple(z for z in ls if z not in l3) if ls else ((t, True),)
                if l3 is None: continue
                l2 = l3
            for z, w in l2:
                if z.op != "poly": x, y = assume(x, z, w), assume(y, z, w)
            if x is y: continue
            r = self.cmp(x, y, l2)
            if r.v == "diff": return r.at("after %d steps" % steps)
        return None
    def oneof(self, a, b, lits):
        """one element is looked at where the reference looks at all of them"""
        if b.op != "any" or constval(b.args[0]) is not None or not self.possible(b.args[0], 2, lits): return None
        for t in (psub(b.args[0], ONE), ZERO):
            if single_atom(inst(b, t)) is a: return DIFF(atom(a), atom(b), "one element instead of all of them")
        return None
    def twosteps(self, c, s, a, gone, lits):
        """a loop against a total over the same range: the two after two steps"""
        if a.op != "fold" or not gone or not isinstance(a.args[4], int): return None
        n = a.args[2][0]; k = a.args[4]; two = {}
        for b in gone:
            f = single_atom(b.args[0]) if b.op == "par" else b
            if f is None or f.op not in ("sum", "prod") or f.args[0] is not n: return None
            v = [inst(f, ZERO), inst(f, ONE)]
            if b.op == "par": v = [par(x) for x in v]
            two[b] = padd(*v) if b.op == "sum" else pmul(*v)
        if constval(n) is not None or self.about(lits, n) or not self.possible(n, 2, lits): return None
        if any(so != "n" for so in a.args[1]): return None
        v = [x for x in a.args[2][1:]]
        for i in range(2):
            m = {bvsym(h, so): x for h, so, x in zip(a.args[0], a.args[1], [const(i)] + v)}
            v = [subst(x, m) for x in a.args[3]]
            if len(v) != len(a.args[2]) - 1: return None
        x = replace(c, {a: v[k]}); y = replace(s, two)
        l2 = lits
        for z, w in tuple(conj_literals(lt(ONE, n))) + tuple(conj_literals(TM.leq(n, const(2)))):
            l2 = self.withlit(l2, z, w) if l2 is not None else None
        if l2 is None: return None
        for z, w in l2:
            if z.op != "poly": x, y = assume(x, z, w), assume(y, z, w)
        r = self.cmp(x, y, l2)
        if os.environ.get("WTWO"): print("TWO", r.v, r.path, str(r.code)[:400], "|||", str(r.ref)[:400])
        return r.at("after two steps") if r.v == "diff" else None
    def possible(self, n, k, lits):
        """n >= k does not contradict the conditions in force"""
        return not self.impossible(pnot(lt(n, const(k))), lits)
    def keeps(self, f, lits):
        """a loop that starts from an input map and only ever stores into it"""
        if f.args[3] is None: return False
        k = f.args[-2] if isinstance(f.args[-2], int) else 0
        starts = f.args[2][1:]
        if k >= len(starts) or not isinstance(starts[k], T) or not is_path(starts[k]): return False
        if not self.possible(length(entries(starts[k])), 1, lits): return False
        v = bvsym(f.args[0][k + 1], "s")
        def stores(t):
            if t is v: return True
            if t.op == "mset": return stores(t.args[0])
            if t.op == "ite": return stores(t.args[1]) and stores(t.args[2])
            return False
        return stores(f.args[3][k])
    def overwrites(self, f):
        """a loop that stores entries without adding to those that are there, under keys that may coincide"""
        if f.op != "fold": return False
        k = f.args[-2] if isinstance(f.args[-2], int) else 0
        b = f.args[3]
        if k >= len(b): return False
        v = bvsym(f.args[0][k + 1], "s"); i = f.args[0][0]
        def distinct(key):
            if f.args[2][1 + k].op != "mempty": return False
            while key.op == "field" and key.args[1] == "first":
                key = key.args[0]
                if key.op == "at" and key.args[0].op == "entries": return single_atom(key.args[1]) is bvsym(i, "n") or single_atom(key.args[1]) is not None
            return False
        def plain(t):
            if t is v: return 0
            if t.op == "mset":
                # the default entry an access creates
                inner = t.args[0]
                if inner.op == "ite" and inner.args[0].op == "mhas": inner = inner.args[1]
                if occurs(v, t.args[2]) or inner is not v or distinct(t.args[1]): return None
                return 1
            if t.op == "ite":
                x, y = plain(t.args[1]), plain(t.args[2])
                return None if x is None or y is None else x + y
            if t.op == "fold" and occurs(v, t): return 1 if self.overwrites(t) else None
            return None
        return bool(plain(b[k]))
    def sums(self, c, s, lits):
        """linear combinations of sums over one range: the two summands, or None"""
        n = None
        def collect(p):
            nonlocal n
            out = []
            for m, k in p.args[0]:
                g = [x for x, e in m if x.op in ("sum", "linof")]
                if len(g) != 1 or any(e != 1 for x, e in m if x is g[0]): return None
                a = g[0]; rest = mkpoly({tuple((x, e) for x, e in m if x is not a): k})
                if a.op == "sum": r = a.args[0]
                elif a.op == "linof" and is_path(a.args[0]): r = length(entries(a.args[0]))
                else: return None
                if n is None: n = r
                if r is not n: return None
                out.append((a, rest))
            return out
        common = {m for m, k in c.args[0]} & {m for m, k in s.args[0] if dict(c.args[0]).get(m) == k}
        x, y = collect(mkpoly({m: k for m, k in c.args[0] if m not in common})), collect(mkpoly({m: k for m, k in s.args[0] if m not in common}))
        if x is None or y is None or n is None or not x + y: return None
        if not self.possible(n, 1, lits): return ZERO, ZERO
        v = fresh("n", "i"); va = single_atom(v); set_bounds(va, ZERO, psub(n, ONE))
        for m, k in s.args[0]:
            for a, e in m:
                if a.op == "sum" and a.args[0] is n: self.learn(inst(a, v))
        def body(l):
            r = ZERO
            for a, k in l:
                if a.op == "sum": b = inst(a, v)
                else:
                    e = at(entries(a.args[0]), v, "s")
                    b = pmul(basis(field(e, "first", "s")), field(e, "second", "q"))
                r = padd(r, pmul(b, k))
            return r
        b = body(x), body(y)
        self.range1 = (v, n)
        return b
    def about(self, lits, n):
        """the conditions in force speak of a total over the range"""
        return any(q.op in ("sum", "fold") and (q.args[0] if q.op == "sum" else q.args[2][0]) is n for z, _ in lits for q in subterms(z, set()))
    def own_key(self, t):
        """the key of the entry the summand is about: different for each summand"""
        return t.op == "field" and t.args[1] == "first" and t.args[0].op == "at" and t.args[0].args[0].op == "entries" and single_atom(t.args[0].args[1]) is not None
    def polys_or_cases(self, c, s, lits): return self.cmp(c, s, lits)
    def onestep(self, c, s, lits):
        """what a loop starts from, or what it has after one step, where the reference runs the loop"""
        if s.op not in ("fold", "mu"): return None
        k = s.args[4] if isinstance(s.args[4], int) else 0
        off = 1 if s.op == "fold" else 0
        hs, ss = s.args[0], s.args[1]
        start = s.args[2][off + k]
        if c.op == s.op and c is not start: return None
        steps = s.args[3] if s.op == "fold" else s.args[3][1]
        if k >= len(steps) or start.op == "poly": return None
        first = {bvsym(h, so): x for h, so, x in zip(hs, ss, ((ZERO,) if off else ()) + tuple(s.args[2][off:]))}
        go = lt(ZERO, s.args[2][0]) if off else subst(s.args[3][0], first)
        for a, v in lits:
            if a.op != "poly": go = assume(go, a, v)
        if c is start:
            if go is ZERO: return EQV
            ok = self.possible(s.args[2][0], 1, lits) if off else constval(go) is None or constval(go) != 0
            return DIFF(c, s, "the loop is left out") if ok else None
        once = subst(steps[k], first)
        for a, v in lits:
            if a.op != "poly": once = assume(once, a, v)
        if c is once and s.op == "mu": return DIFF(c, s, "one step instead of a loop")
        return None
    def afterone(self, c, s, lits):
        """two loops over the same range with different variables: what they leave after one step"""
        if c.op != "fold" or s.op != "fold" or c.args[2][0] is not s.args[2][0]: return None
        n = c.args[2][0]; a = single_atom(n)
        if a is None or a.op != "len" or a.args[0].op not in ("field", "at", "sym") or self.about(lits, n): return None
        v = []
        for f in (c, s):
            k = f.args[4] if isinstance(f.args[4], int) else 0
            if k >= len(f.args[3]): return None
            v.append((f.args[2][1 + k], subst(f.args[3][k], {bvsym(h, so): x for h, so, x in zip(f.args[0], f.args[1], (ZERO,) + tuple(f.args[2][1:]))})))
        if v[0][0] is not v[1][0]: return None
        x, y = (replace(t, {a: ONE}) for _, t in v)
        for z, w in lits:
            if z.op != "poly": x, y = assume(x, z, w), assume(y, z, w)
        if x is y: return None
        self.learn(y)
        r = self.cmp(x, y, lits)
        return r.at("after one step") if r.v == "diff" else None
    def leftout(self, c, s, lits):
        """a loop that appends an element only if it is not there yet, where the reference takes every element"""
        if c.op != "fold" or s.op not in ("cmap", "cat"): return None
        k = c.args[-2] if isinstance(c.args[-2], int) else 0
        if k >= len(c.args[3]) or c.args[2][1 + k].op == "poly": return None
        st = bvsym(c.args[0][k + 1], "s")
        ps = parts(c.args[3][k])
        if len(ps) != 2 or ps[0] is not st or ps[1].op != "ite": return None
        leaves = set()
        def collect(t):
            if t.op == "ite": return occurs(st, t.args[0]) | collect(t.args[1]) | collect(t.args[2])
            leaves.add(t); return False
        if not collect(ps[1]): return None
        x = [t for t in leaves if parts(t)]
        if len(leaves) != 2 or len(x) != 1: return None
        x = x[0]
        others = [bvsym(h, so) for h, so in zip(c.args[0][1:], c.args[1][1:])]
        if not parts(x) or any(o in subterms(x, set()) for o in others): return None
        if not self.possible(c.args[2][0], 2, lits): return None
        v = fresh("n", "i"); va = single_atom(v); set_bounds(va, ZERO, psub(c.args[2][0], ONE))
        full = cat(c.args[2][1 + k], bind("cmap", c.args[2][0], va, subst(x, {bvsym(c.args[0][0], "n"): v})))
        r = EQV if full is s else self.cmp(full, s, lits)
        return DIFF(c, s, "elements already present are left out") if r.v == "eq" else None
    def forgets(self, c, s, lits):
        """a list that is emptied on the way when it has reached some length, where the reference keeps every element"""
        a = single_atom(c.args[0]); n = s.args[0]
        if a is None or a.op != "len" or a.args[0].op != "fold": return None
        f = a.args[0]; k = f.args[-2] if isinstance(f.args[-2], int) else 0
        if k >= len(f.args[3]) or f.args[2][0] is not n or f.args[2][1 + k] is not EMPTY: return None
        st = bvsym(f.args[0][k + 1], "s"); ps = parts(f.args[3][k])
        if len(ps) != 2 or ps[0].op != "ite" or ps[1].op != "el": return None
        others = [bvsym(h, so) for h, so in zip(f.args[0][1:], f.args[1][1:])]
        if any(o in subterms(ps[1], set()) for o in others if o is st): return None
        ln = single_atom(length(st)); at_ = set()
        def lengths(t):
            if t.op != "ite": return
            for z in subterms(t.args[0], set()):
                if z.op == "le" and z.args[0] is atom(ln): at_.update((z.args[1], z.args[1] + 1))
            lengths(t.args[1]); lengths(t.args[2])
        lengths(ps[0])
        if not any(m >= 1 and self.possible(n, m + 1, lits) and replace(ps[0], {ln: const(m)}) is EMPTY for m in at_): return None
        v = fresh("n", "i"); va = single_atom(v); set_bounds(va, ZERO, psub(n, ONE))
        full = bind("cmap", n, va, cat(subst(ps[1], {bvsym(f.args[0][0], "n"): v})))
        g = replace(c, {f: full})
        if ispoly(g) and single_atom(g) is not None: g = single_atom(g)
        if g is s or self.cmp(g, s, lits).v == "eq": return DIFF(c, s, "elements are forgotten on the way")
        return None
    def recpath(self, c, s, lits):
        """record against an opaque value: compare the overridden fields with the fields of the value"""
        r, o = (c, s) if c.op == "rec" else (s, c)
        if not is_opaque(o): return None
        out = []
        if r.args[1] is not None:
            out.append(("object", r.args[1], o) if r is c else ("object", o, r.args[1]))
        for n, so, v in r.args[2]:
            w = field(o, n, so)
            out.append(("." + n, v, w) if r is c else ("." + n, w, v))
        return self.all(out, lits)
    def recs(self, c, s, lits):
        if c.args[0] != s.args[0]: return UNK(c, s, "types")
        bc, bs = c.args[1], s.args[1]
        fc = {n: (so, v) for n, so, v in c.args[2]}; fs = {n: (so, v) for n, so, v in s.args[2]}
        out = []
        if bc is not bs:
            if bc is None or bs is None:
                if not (bc is None and all(n in fc for n in fs)) and not (bs is None and all(n in fs for n in fc)): return UNK(c, s, "base object")
            else: out.append(("object", bc, bs))
        for n in sorted(set(fc) | set(fs)):
            so = (fc.get(n) or fs.get(n))[0]
            x = fc[n][1] if n in fc else (field(bc, n, so) if bc is not None else None)
            y = fs[n][1] if n in fs else (field(bs, n, so) if bs is not None else None)
            if x is None or y is None: return UNK(c, s, "member " + n)
            out.append(("." + n, x, y))
        return self.all(out, lits, bc is bs)
    # ---------------------------------------------------- scalars
    def polys(self, c, s, lits):
        if top_bools(c, set()) or top_bools(s, set()): return self.cases(c, s, lits)
        d = psub(c, s)
        if d is ZERO: return EQV
        if constval(c) is not None and constval(s) is not None: return DIFF(c, s, "constant")
        if lits:
            # the same number in the case at hand?
            lo, hi = TM.leq(d, ZERO), TM.leq(psub(ZERO, d), ZERO)
            for a, v in lits:
                if a.op != "poly": lo = assume(lo, a, v); hi = assume(hi, a, v)
            if lo is ONE and hi is ONE: return EQV
        self.range1 = None
        sb = self.sums(c, s, lits); rg = self.range1
        if sb and (len(c.args[0]) + len(s.args[0]) > 2 or all(any(a.op == "basis" and self.own_key(a.args[0]) for a, _ in m) for b in sb for m, _ in b.args[0])):
            if sb[0] is sb[1]: return EQV
            r = self.cmp(sb[0], sb[1], lits)
            if r.v == "eq" or r.v == "diff" and not (rg and self.about(lits, rg[1])): return r.at("summand")
        if sb and rg is not None:
            # the case of one summand
            v, n = rg; va = single_atom(v); l2 = lits
            for a, w in tuple(conj_literals(lt(ZERO, n))) + tuple(conj_literals(TM.leq(n, ONE))):
                l2 = self.withlit(l2, a, w) if l2 is not None else None
            if l2 is not None and not self.about(lits, n) and constval(n) is None:
                x, y = subst(sb[0], {va: ZERO}), subst(sb[1], {va: ZERO})
                for a, w in l2: x, y = assume(x, a, w), assume(y, a, w)
                r = self.cmp(x, y, l2)
                if r.v == "diff": return r.at("summand")
        # is the difference excluded by the conditions in force?
        cd, sd = dict(c.args[0]), dict(s.args[0])
        rc = [(m, k) for m, k in c.args[0] if sd.get(m) != k]; rs = [(m, k) for m, k in s.args[0] if cd.get(m) != k]
        ac = set(a for m, _ in rc for a, _ in m); as_ = set(a for m, _ in rs for a, _ in m)
        alls = subterms(s, set())
        new = [a for a in ac if a not in alls and a not in as_]
        gone = [a for a in as_ if a not in ac]
        for a in new:
            if a.op == "linof" and self.overwrites(a.args[0]) and not any(b.op == "linof" and b.args[0].op == "fold" and self.overwrites(b.args[0]) for b in as_): return DIFF(c, s, "entries are overwritten, not added to")
        if constval(c) is not None and len(s.args[0]) <= 2:
            # a constant where the reference accumulates over an unbounded range
            for a in as_:
                if a.op in ("fold", "sum", "prod") and not a.syms & {"#"} :
                    n = a.args[2][0] if a.op == "fold" else a.args[0]
                    if constval(n) is None and not top_bools(n, set()) and self.possible(n, 4, lits) and not any(x.op in ("any", "first", "app") for l, _ in lits for x in subterms(l, set())): return DIFF(c, s, "a constant instead of an accumulation")
        if not new:
            if constval(d) is not None or all(simple(a, self.vocab) for m, _ in d.args[0] for a, _ in m): return DIFF(c, s, "value")
            if len(c.args[0]) == len(s.args[0]) == 1 and c.args[0][0][0] == s.args[0][0][0] and not lits_about(lits, s): return DIFF(c, s, "factor")
            return UNK(c, s, "value")
        if not gone:
            if all(simple(a, self.vocab) for a in new): return DIFF(c, s, "value")
            return UNK(c, s, "new operation in a value")
        # match the atoms that differ
        m = {}; rest = sorted(gone, key=lambda a: a.dig); df = None
        for a in sorted(new, key=lambda a: a.dig):
            best = None
            for b in rest:
                if self.shape(a) != self.shape(b): continue
                r = self.cmp_atom(a, b, lits)
                sc = {"eq": 0, "diff": 1, "unk": 2}[r.v]
                if best is None or sc < best[0]: best = (sc, b, r)
            if best is None:
                if simple(a, self.vocab) and all(simple(b, self.vocab) for b in gone) and not any(b.op in LOOPY for b in gone): df = df or DIFF(c, s, "value"); continue
                g = [b for b in gone if b.op in ("sum", "prod", "fold", "first") and (b.op == "fold" or constval(b.args[0]) is None)]
                if g and len(gone) == len(g) and len(new) == 1 and not a.op in ("sym", "len") and not any(x.op in LOOPY for x in subterms(a, set())):
                    # one element instead of all of them
                    fa = {x.args[0] for x in subterms(a, set()) if x.op == "app"}
                    if any(fa <= {x.args[0] for x in subterms(b, set()) if x.op == "app"} and self.skels(a) <= self.skels(b) for b in g): df = df or DIFF(c, s, "not accumulated"); continue
                return self.twosteps(c, s, a, gone, lits) or UNK(c, s, "operation without counterpart")
            if best[0] == 2: return best[2]
            rest.remove(best[1])
            if best[0] == 1:
                co = lambda p, x: {tuple((y, e) for y, e in mm if y is not x): k for mm, k in p.args[0] if any(y is x for y, e in mm)}
                if a.op == "linof" and co(c, a) != co(s, best[1]): return UNK(c, s, "combinations with different factors")
                df = df or best[2]
            else: m[a] = atom(best[1])
        if m and not df:
            c2 = replace(c, m)
            return self.cmp(c2, s, lits) if c2 is not c else UNK(c, s, "value")
        return df or UNK(c, s, "value")
    def skels(self, t): return {x.op for x in subterms(t, set()) if x.op not in ("poly", "at", "field", "sym", "bv", "len")}
    # ---------------------------------------------------- sequences
    def impossible(self, cond, lits):
        """cond (a 0/1 polynomial) cannot hold under the literals"""
        v = constval(cond)
        if v is not None: return v == 0
        l = conj_literals(cond)
        return bool(l) and not lits_feasible(tuple(l) + tuple(x for x in lits if x[0].op != "poly"))
    def cuts(self, P, lits):
        """loops that treat the indices below a bound differently become two loops; x y1 x y2 .. is read as x1 y x2 y .."""
        out = []; todo = list(P); n = 0
        while todo:
            p = todo.pop(0)
            done = False
            if p.op == "cmap" and n < 6:
                v = fresh("n", "i"); va = single_atom(v); set_bounds(va, ZERO, psub(p.args[0], ONE))
                b = inst(p, v)
                conds = [x.args[0] for x in parts(b) if x.op == "ite"] + [x.args[0].args[0] for x in parts(b) if x.op == "el" and not ispoly(x.args[0]) and x.args[0].op == "ite"]
                for a in conds:
                    if a.op != "le": continue
                    lc = TM.linear_coef(a.args[0], va)
                    if not lc or lc[0] not in (1, -1): continue
                    rest = lc[1]
                    # i + rest <= k: i < k - rest + 1;  -i + rest <= k: i >= rest - k
                    c = padd(psub(const(a.args[1]), rest), ONE) if lc[0] == 1 else psub(rest, const(a.args[1]))
                    if usesv(c, va) or not self.impossible(lt(c, ZERO), lits) or not self.impossible(lt(p.args[0], c), lits): continue
                    w = fresh("n", "i"); wa = single_atom(w); set_bounds(wa, ZERO, psub(c, ONE))
                    m = psub(p.args[0], c)
                    x = fresh("n", "i"); xa = single_atom(x); set_bounds(xa, ZERO, psub(m, ONE))
                    lo = assume(b, a, lc[0] == 1); hi = assume(b, a, lc[0] != 1)
                    todo[:0] = [q for q in parts(bind("cmap", c, wa, subst(lo, {va: w}))) + parts(bind("cmap", m, xa, subst(hi, {va: padd(x, c)})))]
                    n += 1; done = True; break
            if not done: out.append(p)
        k = 0
        while k + 1 < len(out):
            x, l = out[k], out[k + 1]
            if x.op not in ("cmap", "ite") and l.op == "cmap" and len(parts(l.args[2])) > 1 and self.impossible(lt(l.args[0], ZERO), lits):
                if parts(inst(l, const(-1)))[-1] is x:
                    v = fresh("n", "i"); va = single_atom(v); set_bounds(va, ZERO, psub(l.args[0], ONE))
                    b = parts(inst(l, v)); prev = parts(inst(l, psub(v, ONE)))[-1]
                    out[k:k + 2] = parts(bind("cmap", l.args[0], va, cat(prev, *b[:-1]))) + [parts(inst(l, psub(l.args[0], ONE)))[-1]]
            k += 1
        return out
    def seqs(self, c, s, lits):
        P, Q = parts(c), parts(s)
        P, Q = [[x for x in l if not (x.op == "cmap" and not self.possible(x.args[0], 1, lits))] for l in (P, Q)]     # nothing is repeated
        if len(P) != len(Q) or any(self.kind(x) != self.kind(y) for x, y in zip(P, Q)):
            P2, Q2 = self.cuts(P, lits), self.cuts(Q, lits)
            if [x.dig for x in P2] != [x.dig for x in P] or [x.dig for x in Q2] != [x.dig for x in Q]:
                c2, s2 = cat(*P2), cat(*Q2)
                if c2 is s2: return EQV
                if len(P2) == len(Q2): 
                    r = self.cmp(c2, s2, lits)
                    if r.v == "eq": return r
        i = 0
        while i < len(P) and i < len(Q) and P[i] is Q[i]: i += 1
        j = 0
        while j < len(P) - i and j < len(Q) - i and P[-1 - j] is Q[-1 - j]: j += 1
        P, Q = P[i:len(P) - j], Q[i:len(Q) - j]
        if not P and not Q: return EQV
        if any(x.op == "ite" for x in P + Q): return self.cases(cat(*P), cat(*Q), lits)
        if len(P) == len(Q) == 1 and not (P[0].op in ("cat", "el") or Q[0].op in ("cat", "el")): return self.heads(P[0], Q[0], lits)
        if len(P) == len(Q):
            if sorted(x.dig for x in P) == sorted(x.dig for x in Q):
                # unless the conditions make the parts equal
                dist = [(x.args[0], y.args[0]) for x, y in zip(P, Q) if x is not y and x.op == y.op == "el" and is_path(x.args[0]) and is_path(y.args[0])]
                for x, y in dist:
                    rel = [(a, v) for a, v in lits if a.op != "poly" and occurs(x, a) and occurs(y, a)]
                    if rel and all(constval(replace(atom(a), {y: x})) == v for a, v in rel): return UNK(cat(*P), cat(*Q), "parts that may be equal")
                return DIFF(cat(*P), cat(*Q), "order of the parts")
            if all(self.kind(x) == self.kind(y) for x, y in zip(P, Q)):
                return self.all([("part %d" % (k + i), x.args[0] if x.op == "el" else x, y.args[0] if y.op == "el" else y) for k, (x, y) in enumerate(zip(P, Q))], lits)
        # constant text against constant text
        if all(x.op == "el" and ispoly(x.args[0]) and constval(x.args[0]) is not None for x in P + Q): return DIFF(cat(*P), cat(*Q), "text")
        dp, dq = [x.dig for x in P], [x.dig for x in Q]
        def sub(a, b):
            b = list(b)
            for x in a:
                if x not in b: return False
                b.remove(x)
            return True
        if sub(dp, dq): return DIFF(cat(*P), cat(*Q), "part left out")
        if sub(dq, dp) and all(simple(x, self.vocab) for x in P): return DIFF(cat(*P), cat(*Q), "additional part")
        # different number of parts: align equal ones greedily
        if all(simple(x, self.vocab) and x.op not in ("slice", "upd") for x in P) and all(x.op == "el" for x in P + Q) and len(P) != len(Q): return DIFF(cat(*P), cat(*Q), "number of elements")
        # text put together from inputs and constants is determined by its parts
        plain = lambda x: x.op == "el" and (not ispoly(x.args[0]) or constval(x.args[0]) is not None or is_path(single_atom(x.args[0]) or x)) or is_path(x)
        if all(plain(x) for x in P + Q): return DIFF(cat(*P), cat(*Q), "parts")
        for last in (False, True):
            r = self.ends(P, Q, last, lits)
            if r is not None: return r.at("last element" if last else "first element")
        if sorted(self.kind(x) for x in P) == sorted(self.kind(y) for y in Q) and len(P) == len(Q):
            return UNK(c, s, "parts rearranged")
        # text pieces around non-constant pieces
        a, b = self.chunks(P), self.chunks(Q)
        if [k for k, _ in a] == [k for k, _ in b]:
            return self.all([("part %d" % k, x, y) for k, ((_, x), (_, y)) in enumerate(zip(a, b))], lits)
        na, nb = [x for k, x in a if k != "t"], [x for k, x in b if k != "t"]
        if len(na) == len(nb) and all(x is y for x, y in zip(na, nb)): return DIFF(c, s, "text between the parts")
        for x, y, w in ((P, Q, "an input where text is put together"), (Q, P, "text put together where an input is used")):
            if len(x) == 1 and x[0].op in ("field", "at", "sym") and is_path(x[0]) and any(z.op == "el" and ispoly(z.args[0]) and constval(z.args[0]) is not None for z in y) and not any(self.mentions(x[0], a) for a, _ in lits): return DIFF(cat(*P), cat(*Q), w)
        for x, y in ((P, Q), (Q, P)):
            if len(y) == 1 and y[0].op == "cmap" and all(z.op == "el" for z in x):
                v = fresh("n", "i"); b = inst(y[0], v)
                if b.op == "el" and not usesv(b, single_atom(v)) and all(z is b for z in x) and self.possible(y[0].args[0], len(x) + 1, lits) and simple(y[0].args[0], self.vocab): return DIFF(cat(*P), cat(*Q), "number of repetitions")
        r = self.prefix(P, Q, lits) or self.prefix(Q, P, lits)
        if r: return DIFF(cat(*P), cat(*Q), "treated differently from an index on")
        if self.shorter(P, Q, lits): return DIFF(cat(*P), cat(*Q), "another number of elements")
        return UNK(c, s, "different parts")
    def shorter(self, P, Q, lits):
        """the numbers of elements differ, by a number or by lengths of inputs"""
        d = psub(length(cat(*P)), length(cat(*Q)))
        v = constval(d)
        if v is not None: return v != 0
        for m, _ in d.args[0]:
            for a, e in m:
                if a.op != "len" or e != 1 or len(m) != 1: return False
                p = replace(a.args[0], {x: fresh("n", "i") for x in subterms(a.args[0], set()) if x.op == "mget" and x.args[-1] == "n" and is_path(x.args[0]) and not self.of_state(x.args[0])})
                if not is_path(p) or self.of_state(p): return False
        return not self.impossible(pnot(TM.eqi(d, ZERO)), lits)
    def atmost(self, P, Q, lits):
        """a fixed number of elements, where the reference takes every one that satisfies a condition on an input"""
        def most(t):
            if t.op == "ite": return max(most(t.args[1]), most(t.args[2]))
            n = 0
            for x in parts(t):
                if x.op == "el": n += 1
                elif x.op == "ite": n += most(x)
                else: return 99
            return n
        k = sum(most(x) for x in P)
        if k > 16 or len(Q) != 1 or Q[0].op != "cmap" or not self.possible(Q[0].args[0], k + 1, lits): return False
        v = fresh("n", "i"); va = single_atom(v); set_bounds(va, ZERO, psub(Q[0].args[0], ONE))
        b = inst(Q[0], v); conds = []
        while b.op == "ite":
            c, x, y = b.args; c = c if ispoly(c) else atom(c)
            if x is EMPTY: conds.append(pnot(c)); b = y
            elif y is EMPTY: conds.append(c); b = x
            else: return False
        if b.op != "el" or not conds: return False
        # every condition compares its own field of an element with a number; one moves with the loop
        def elsewhere(r, base, start):
            if base not in r.args or r.op == "len": return True
            d = constval(psub(r.args[1], start)) if r.op == "at" else None
            return d is not None and d < 0
        paths = set(); moves = None
        for c in conds:
            z = conj_literals(c)
            if len(z) != 1 or z[0][0].op != "le": return False
            at_ = {w for m, _ in z[0][0].args[0].args[0] for w, _ in m}
            w = next(iter(at_))
            if len(at_) != 1 or not is_path(w) or w in paths: return False
            paths.add(w)
            seen = [u for u in subterms(w, set()) if u.op == "at" and usesv(u, va)]
            if not seen: continue
            base = {u.args[0] for u in seen if not usesv(u.args[0], va)}
            if len(base) != 1: return False
            base = next(iter(base)); ix = [u.args[1] for u in seen if u.args[0] is base]
            if len(ix) != 1 or usesv(psub(ix[0], v), va) or moves: return False
            moves = (base, psub(ix[0], v), w)
        if not moves: return False
        base, start, w = moves
        others = set().union(*[subterms(q, set()) for q, _ in lits], *[subterms(p, set()) for p in paths if p is not w])
        return all(elsewhere(r, base, start) for r in others) and not any(p in subterms(q, set()) for p in paths for q, _ in lits)
    def ends(self, P, Q, last, lits):
        """sequences that begin (or end) differently whenever their first (or last) parts are not empty"""
        if not P or not Q: return None
        k = -1 if last else 0
        def end(x, other):
            if x.op == "el": return x.args[0], ONE
            if x.op == "cmap":
                b = parts(inst(x, psub(x.args[0], ONE) if last else ZERO))
                return (b[k].args[0], lt(ZERO, x.args[0])) if b and b[k].op == "el" else None
            if x.op in ("slice", "sym", "field", "at") and other is not None:
                n = length(x)
                return at(x, psub(n, ONE) if last else ZERO, "n" if ispoly(other) else "s"), lt(ZERO, n)
            return None
        x, y = P[k], Q[k]
        if x.op == y.op and x.op != "cmap": return None
        if x.op == y.op == "cmap" and x.args[0] is y.args[0]: return None
        a = end(x, None) or end(x, (end(y, None) or (None,))[0]); b = end(y, None) or end(y, (end(x, None) or (None,))[0])
        if a is None or b is None or ispoly(a[0]) != ispoly(b[0]): return None
        l2 = lits; A, B = a[0], b[0]
        for z, w in tuple(conj_literals(a[1])) + tuple(conj_literals(b[1])):
            if any(z is q and w != u for q, u in l2): return None
            l2 = self.withlit(l2, z, w)
            if l2 is None: return None
            A, B = assume(A, z, w), assume(B, z, w)
        if constval(a[1]) == 0 or constval(b[1]) == 0 or not lits_feasible(tuple(q for q in l2 if q[0].op != "poly")): return None
        if A is B: return None
        self.learn(B)
        r = self.cmp(A, B, l2)
        return r if r.v == "diff" else None
    def mentions(self, p, a): return p in subterms(a, set())
    def prefix(self, P, Q, lits):
        """P = {f(i) : i < k} followed by unprocessed rest, Q = {f(i) : i < n}"""
        if len(P) != 2 or len(Q) != 1 or P[0].op != "cmap" or Q[0].op != "cmap": return False
        k, n = P[0].args[0], Q[0].args[0]
        v = fresh("n", "i"); va = single_atom(v); set_bounds(va, ZERO, psub(k, ONE))
        if inst(P[0], v) is not inst(Q[0], v): return False
        if P[1].op != "slice" or P[1].args[1] is not k or not is_path(P[1].args[0]): return False
        x = el(at(P[1].args[0], v, "s"))
        b = inst(Q[0], v)
        # the rest is what the loop would have left alone only if f is the identity
        if b is x: return False
        f = single_atom(k)
        if constval(k) is not None: return True
        if f is not None and f.op == "first":
            # the loop ends for a reason that has nothing to do with the elements
            w = fresh("n", "i"); c = inst(f, w)
            return all(y.op in ("bv", "sym", "len", "poly", "le", "field", "at", "eq0") and (y.op != "at" or False) for y in subterms(c, set()) if not is_path(y))
        return False
    def opaque_parts(self, ps): return [x for x in ps if x.op != "el"]
    def kind(self, x):
        if x.op == "el": return "el:p" if ispoly(x.args[0]) else "el:s"
        if x.op in ("sym", "field", "at", "mget", "bv"): return "path"
        return x.op
    def chunks(self, ps):
        out = []; buf = []
        for p in ps:
            if p.op == "el" and ispoly(p.args[0]) and constval(p.args[0]) is not None: buf.append(p); continue
            if buf: out.append(("t", cat(*buf))); buf = []
            out.append((self.kind(p), p))
        if buf: out.append(("t", cat(*buf)))
        return out
    # ---------------------------------------------------- binders
    def open2(self, c, s, n):
        v = fresh("n", "i"); va = single_atom(v); set_bounds(va, ZERO, psub(n, ONE))
        y = inst(s, v); self.learn(y)
        return v, inst(c, v), y
    def learn(self, t):
        """the reference's operations under a binder that has been opened"""
        new = subterms(t, set())
        for x in new:
            if x.op == "app": self.vocab.add(x.args[0])
        self.vocab |= new
    def splitting(self, c, s, conds, lits):
        """by cases of a condition that decides how far a loop runs"""
        a = min(conds, key=lambda x: (x.size, x.dig)); d = None
        for v in (True, False):
            l2 = self.withlit(lits, a, v)
            if l2 is None or not lits_feasible(tuple(q for q in l2 if q[0].op != "poly")): continue
            x, y = assume(c, a, v), assume(s, a, v)
            if x is y: continue
            r = self.cmp(x, y, l2)
            if r.v == "unk": return r
            if r.v == "diff": d = d or Verdict("diff", r.path, r.code, r.ref, ((a, v),) + r.case, r.chain)
        return d or EQV
    def binders(self, c, s, lits):
        nc, ns = c.args[0], s.args[0]
        if c.op == "cmap" and nc is not ns:
            b = top_bools(nc, set()) | top_bools(ns, set())
            if b and len(b) <= 4: return self.splitting(c, s, b, lits)
        if c.op == "any":
            r = self.oneof(c, s, lits)
            if r: return r
        rn = self.cmp(nc, ns, lits) if nc is not ns else EQV
        if rn.v == "eq":
            v, x, y = self.open2(c, s, ns)
            x, y, lits = self.instantiate(ns, v, x, y, lits)
            if x is None: return EQV
            r = self.cmp(x, y, lits)
            if r.v == "eq": return r
            if c.op in ("sum", "any", "prod"):
                # the same terms in the opposite order
                z = inst(c, psub(psub(ns, ONE), v))
                if z is y or self.cmp(z, y, lits).v == "eq": return EQV
                if self.swapped(c, s, lits): return EQV
            return r.at("in %s" % c.op)
        if c.op in ("sum", "any", "prod"):
            if self.swapped(c, s, lits): return EQV
            # a range that differs: the terms may vanish outside the common part
            if c.op in ("sum", "any") and self.padded(c, s, lits): return EQV
        r = self.forgets(c, s, lits)
        if r: return r
        if rn.v == "diff":
            k = constval(psub(nc, ns))
            if k is not None and abs(k) <= 3:
                # the same elements, some of them left out or added at an end
                for off in range(abs(k) + 1):
                    big, small = (c, s) if k > 0 else (s, c)
                    v = fresh("n", "i"); va = single_atom(v); set_bounds(va, ZERO, psub(small.args[0], ONE))
                    x, y = inst(big, padd(v, const(off))), inst(small, v)
                    if k < 0: x, y = y, x
                    self.learn(y)
                    if x is y or self.cmp(x, y, lits).v == "eq": return DIFF(nc, ns, "range of %s" % c.op)
            elif k is None and c.op == "cmap":
                # from another element on
                d = psub(nc, ns)
                v = fresh("n", "i"); set_bounds(single_atom(v), ZERO, None)
                x, y = inst(c, padd(v, d)), inst(s, v)
                if all(simple(z, self.vocab) for m, _ in d.args[0] for z, _ in m) and self.possible(d, 1, lits) and (x is y or self.cmp(x, y, lits).v == "eq"): return DIFF(nc, ns, "range of %s" % c.op)
                x, y = inst(c, v), inst(s, psub(v, d))
                if all(simple(z, self.vocab) for m, _ in d.args[0] for z, _ in m) and self.possible(pneg(d), 1, lits) and (x is y or self.cmp(x, y, lits).v == "eq"): return DIFF(nc, ns, "range of %s" % c.op)
            # one construct stands for another throughout
            for a, b in () if self.trial else rn.chain:
                if a.op == "poly": continue
                c2 = replace(c, {a: b})
                if ispoly(c2) and single_atom(c2) is not None: c2 = single_atom(c2)
                if ispoly(c2) and not ispoly(s): continue
                if c2 is s: return rn.at("range of %s" % c.op)
                if c2 is c: continue
                self.trial += 1
                r = self.cmp(c2, s, lits)
                self.trial -= 1
                if r.v == "eq": return rn.at("range of %s" % c.op)
            v, x, y = self.open2(c, s, ns)
            r = self.cmp(x, y, lits)
            if r.v == "unk": return r.at("in %s" % c.op)
            if r.v == "diff" and not self.trial:
                # a list that differs, its length and its elements
                for a, b in r.chain:
                    if a.op not in ("cmap", "cat", "sort", "slice") or b.op == "poly" or psub(nc, length(a)) is not psub(ns, length(b)): continue
                    z = replace(x, {a: b})
                    if z is x: continue
                    self.trial += 1
                    q = EQV if z is y else self.cmp(z, y, lits)
                    self.trial -= 1
                    if q.v == "eq": return r.at("in %s" % c.op)
            if r.v == "diff" and c.op == "cmap" and isinstance(x, T) and isinstance(y, T) and x.op == y.op == "el" and single_atom(nc) is not None and single_atom(ns) is not None and simple(nc, self.vocab): return rn.at("number of elements")
            if r.v == "diff": return UNK(c, s, "range and body of %s differ" % c.op)
        return rn.at("range of %s" % c.op)
    def instantiate(self, n, v, x, y, lits):
        """what is known for all indices below n holds for this one"""
        for a, w in lits:
            if a.op == "any" and not w and a.args[0] is n:
                f = pnot(inst(a, v))
                if f is ZERO: return None, None, lits
                for b, u in conj_literals(f):
                    x, y, f = assume(x, b, u), assume(y, b, u), assume(f, b, u)
                    lits = self.withlit(lits, b, u)
                    if lits is None: return None, None, ()
                if constval(f) is None: lits = lits + ((f, True),)
        return x, y, lits
    def padded(self, c, s, lits):
        nc, ns = c.args[0], s.args[0]
        d = constval(psub(nc, ns))
        if d is None or abs(d) > 3: return False
        big, small = (c, s) if d > 0 else (s, c)
        nb, nsm = big.args[0], small.args[0]
        # big runs over more indices: compare big restricted to the front or to the back
        for off in range(0, abs(d) + 1):
            ok = True
            for k in range(abs(d)):
                idx = const(k) if k < off else padd(nsm, const(k))
                z = inst(big, idx)
                if z is not ZERO: ok = False; break
            if not ok: continue
            v = fresh("n", "i"); va = single_atom(v); set_bounds(va, ZERO, psub(nsm, ONE))
            if self.cmp(inst(big, padd(v, const(off))), inst(small, v), lits).v == "eq": return True
        return False
    def swapped(self, c, s, lits):
        return self.swapped1(c, s, lits) or self.swapped1(s, c, lits)
    def swapped1(self, c, s, lits):
        """triangular double sums with exchanged roles of the two indices"""
        a = self.inner(c); b = self.inner(s)
        if a is None or b is None: return False
        # c: i<n, j<g(i), body ;  try i' = n-1-i for both, and the transposition
        n = c.args[0]
        if n is not s.args[0]:
            pass
        v = fresh("n", "i"); va = single_atom(v); set_bounds(va, ZERO, psub(n, ONE))
        ib = inst(c, v); ia = single_atom(ib)
        if ia is None or ia.op != c.op: return False
        if psub(ia.args[0], v) is ZERO:
            # sum_{i<n} sum_{j<i} f(i,j) = sum_{j<n-1} sum_{k<n-1-j} f(j+1+k, j)
            w = fresh("n", "j"); wa = single_atom(w); set_bounds(wa, ZERO, psub(n, ONE))
            k = fresh("n", "k"); ka = single_atom(k); set_bounds(ka, ZERO, psub(psub(n, const(2)), w))
            f = subst(inst(ia, w), {va: padd(padd(w, ONE), k)})
            t = bind(c.op, psub(n, ONE), wa, bind(c.op, psub(psub(n, ONE), w), ka, f))
            t2 = bind(c.op, n, wa, bind(c.op, psub(psub(n, ONE), w), ka, f))
            sp = atom(s)
            return t is sp or t2 is sp
        if psub(psub(ia.args[0], v), ONE) is ZERO:
            # sum_{i<n} sum_{j<i+1} f(i,j) = sum_{j<n} sum_{k<n-j} f(j+k, j)
            w = fresh("n", "j"); wa = single_atom(w); set_bounds(wa, ZERO, psub(n, ONE))
            k = fresh("n", "k"); ka = single_atom(k); set_bounds(ka, ZERO, psub(psub(n, ONE), w))
            f = subst(inst(ia, w), {va: padd(w, k)})
            t = bind(c.op, n, wa, bind(c.op, psub(n, w), ka, f))
            t2 = bind(c.op, padd(n, ONE), wa, bind(c.op, psub(n, w), ka, f))
            return t is atom(s) or t2 is atom(s)
        if psub(psub(psub(n, ONE), v), ia.args[0]) is ZERO:
            # sum_{i<n} sum_{k<n-1-i} f(i, k) = sum_{m<n} sum_{i<m} f(i, m-1-i)
            w = fresh("n", "m"); wa = single_atom(w); set_bounds(wa, ZERO, psub(n, ONE))
            k = fresh("n", "i"); ka = single_atom(k); set_bounds(ka, ZERO, psub(w, ONE))
            f = subst(inst(ia, psub(psub(w, ONE), k)), {va: k})
            t = bind(c.op, n, wa, bind(c.op, w, ka, f))
            return t is atom(s)
        # rectangular: exchange
        if not usesv(ia.args[0], va):
            w = fresh("n", "m"); wa = single_atom(w); set_bounds(wa, ZERO, psub(ia.args[0], ONE))
            t = bind(c.op, ia.args[0], wa, bind(c.op, n, va, inst(ia, w)))
            return t is atom(s)
        return False
    def inner(self, t):
        b = t.args[2]
        return single_atom(b) if ispoly(b) else None
    def multi(self, c, s, lits):
        if sorted(c.args[1]) != sorted(s.args[1]) or len(c.args) != len(s.args): return self.afterone(c, s, lits) or UNK(c, s, "loops of different shape")
        if c.op == s.op == "fold" and c.args[2][0] is not s.args[2][0]:
            # successive loops in another order
            a, b = self.successive(c), self.successive(s)
            if len(a) == len(b) > 1 and a != b and sorted(x.dig for x in a) == sorted(x.dig for x in b): return UNK(c, s, "loops in another order")
        if c.op == s.op == "mu":
            a, b = self.chained(c), self.chained(s)
            if len(a) == len(b) > 1 and a != b and sorted(map(sorted, a)) == sorted(map(sorted, b)): return UNK(c, s, "loops in another order")
        f = 1 if c.op == "fold" else 0
        ss = c.args[1]; n = len(ss)
        if c.op == "lam": perms = [tuple(range(n))]
        elif n - f <= 4: perms = [tuple(range(f)) + p for p in itertools.permutations(range(f, n))]
        else: perms = [tuple(range(n))]
        # components correspond when they have the same kind and start alike
        perms = [p for p in perms if all(s.args[1][p[k]] == ss[k] for k in range(n))]
        if len(c.args) > 4 and isinstance(c.args[4], int): perms = [p for p in perms if p[c.args[4] + f] == s.args[4] + f]
        if not perms: return UNK(c, s, "loops of different shape")
        if len(perms) > 1:
            same = [p for p in perms if all(c.args[2][k] is s.args[2][p[k]] for k in range(f, n))]
            if same: perms = same
        vs = [fresh(so, "s") for so in ss]
        def opened(t, p):
            m = {bvsym(t.args[0][p[k]], ss[k]): vs[k] for k in range(n)}
            return subst(t.args[3], m)
        def order(x, p, off):
            return tuple(x[p[k] - off] for k in range(off, n))
        res = []
        for p in perms:
            cs, sst = opened(c, tuple(range(n))), opened(s, p)
            self.learn(sst)
            if c.op == "lam": pairs = [("start", c.args[2], s.args[2]), ("step", cs, sst)]
            else:
                if c.op == "fold": sst = order(sst, p, 1); so = (s.args[2][0],) + order(s.args[2][1:], p, 1)
                else: sst = (sst[0], order(sst[1], p, 0)); so = order(s.args[2], p, 0)
                pairs = [("start", c.args[2], so), ("step", cs, sst)]
            r = self.all(pairs, lits)
            if r.v == "eq": return r
            res.append((r, pairs))
        if len(res) == 1: return res[0][0]
        # the correspondence under which most components agree
        def agree(pairs):
            n = 0
            for lab, x, y in pairs:
                xs, ys = (x, y) if isinstance(x, tuple) else ((x,), (y,))
                for a, b in zip(xs, ys):
                    if isinstance(a, tuple): n += agree([(lab, a, b)])
                    else: n += 1 if a is b or self.cmp(a, b, lits).v == "eq" else 0
            return n
        if all(r.v == "diff" for r, _ in res): return max(res, key=lambda x: agree(x[1]))[0]
        sc = sorted(((agree(q), k) for k, (r, q) in enumerate(res)), reverse=True)
        if sc[0][0] > sc[1][0]: return res[sc[0][1]][0]
        return UNK(c, s, "several correspondences of the loop variables")
    def chained(self, t):
        """the sequences that successive loops with exits run over"""
        out = []
        while t.op == "mu":
            out.append([x.dig for x in subterms(t.args[3][0], set()) if x.op == "len" and is_path(x.args[0]) and not usesbound(x)])
            n = [single_atom(x) or x if ispoly(x) else x for x in t.args[2]]
            n = {y for x in n if isinstance(x, T) for y in subterms(x, set()) if y.op == "mu" and y.args[0] is not t.args[0]}
            n = sorted(n, key=lambda y: -y.size)
            if not n: break
            t = n[0]
        return out
    def successive(self, t):
        out = []
        while t.op == "fold":
            out.append(t.args[2][0])
            n = [single_atom(x) or x if ispoly(x) else x for x in t.args[2][1:]]
            n = [x for x in n if isinstance(x, T) and x.op == "fold"]
            if len(n) != 1: break
            t = n[0]
        return out
    def apps(self, c, s, lits):
        if c.args[0] == s.args[0] and len(c.args[1]) == len(s.args[1]):
            return self.all([("argument %d of %s" % (k + 1, c.args[0]), x, y) for k, (x, y) in enumerate(zip(c.args[1], s.args[1]))], lits, True)
        if {c.args[0], s.args[0]} == {"regex_search", "regex_match"} and c.args[1] == s.args[1]:
            t = str(c.args[1][1])
            if not ("'^" in t and "$'" in t): return DIFF(c, s, "the whole string or a part of it has to match")
        if c.args[0] != s.args[0] and c.args[2] == s.args[2]:
            f, g = (re.fullmatch(r"format::(?:0)?\.(\d+)([efg])", str(x.args[0])) for x in (c, s))
            if f and g and f.groups() != g.groups() and c.args[1] == s.args[1]: return DIFF(c, s, "another number format")
            for x, y, m in ((c, s, f), (s, c, g)):
                if m and (y.args[0] in ("rational::str", "rational::repr", "rational::latex", "to_string") or str(y.args[0]) == "format::d"): return DIFF(c, s, "another number format")
            if c.args[1] == s.args[1] and (c.args[0] in self.vocab or self.known(c.args[0])): return DIFF(c, s, "another operation")
            if c.args[0] in self.vocab and len(c.args[1]) == len(s.args[1]) and simple(c.args[1], self.vocab): return DIFF(c, s, "another operation")
        return UNK(c, s, "different operations")
    def known(self, n): return False
def usesbound(t): return any(x.op == "bv" for x in subterms(t, set()))
def usesv(t, va): return va in t.syms

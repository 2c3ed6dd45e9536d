"""Hash-consed value terms with a normal form.

A term denotes a value of the analysed program as a function of its inputs.  Scalars (bool, int, enum, char, exact
rational) are polynomials over atoms; a condition is an indicator atom with values 0/1, so that booleans, case
distinctions on numbers and counting share one canonical form.  Sequences, maps, records are structural terms; case
distinctions on them are ordered 'ite' nodes which are pushed towards the leaves.
Nothing is executed: terms are only ever rewritten into normal form."""
import hashlib, itertools
from fractions import Fraction

class TooBig(Exception): pass

class T:
    __slots__ = ("op", "args", "dig", "syms", "conds", "bh", "size", "__weakref__")
    def __repr__(self): return show(self)

_tab = {}
MAXSIZE = 30000000
def _feed(h, x):
    if isinstance(x, T): h.update(b"T" + x.dig)
    elif isinstance(x, tuple):
        h.update(b"(")
        for y in x: _feed(h, y)
        h.update(b")")
    else: h.update((type(x).__name__ + ":" + str(x) + ";").encode())

def _collect(x, syms, conds, st):
    if isinstance(x, T):
        syms |= x.syms; conds |= x.conds
        if x.bh > st[0]: st[0] = x.bh
        st[1] += x.size
    elif isinstance(x, tuple):
        for y in x: _collect(y, syms, conds, st)

BINDERS = {"sum": 1, "prod": 1, "any": 1, "first": 1, "cmap": 1, "perm": 1}   # op -> nothing; args (n, h, body)
def raw(op, *args):
    """intern a node without normalising"""
    k = (op, args)
    t = _tab.get(k)
    if t is not None: return t
    t = T(); t.op = op; t.args = args
    h = hashlib.blake2b(digest_size=12); h.update(op.encode()); _feed(h, args); t.dig = h.digest()
    syms = set(); conds = set(); st = [0, 1]
    _collect(args, syms, conds, st)
    if op == "sym": syms.add(t)
    if op in ("le", "eq0") or is_bool_atom_op(op, args): conds = conds | {t}
    if op in BINDERS or op in ("fold", "mu", "lam"):
        # bound variables do not escape
        if op in BINDERS: hs = (args[1],)
        else: hs = args[0]
        st[0] = max([st[0]] + list(hs))
        bv = {s for s in syms if s.op == "bv" and s.args[0] in hs}
        if bv:
            syms -= bv
            conds = {c for c in conds if c is t or not (c.syms & bv)}
    if op == "bv": syms.add(t)
    t.syms = frozenset(syms); t.conds = frozenset(conds); t.bh = st[0]; t.size = st[1]
    if t.size > MAXSIZE: raise TooBig("term too large")
    _tab[k] = t
    return t

def is_bool_atom_op(op, args):
    if op == "any": return True
    if op == "app": return args[2] == "b"
    if op in ("sym", "bv"): return args[1] == "b"
    if op in ("field", "at", "mget", "mhas", "fold", "mu"): return args[-1] == "b"
    return False
def isbool(a): return a.op in ("le", "eq0") or is_bool_atom_op(a.op, a.args)

# ---------------------------------------------------------------- polynomials
def mkpoly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if len(items) > 4000: raise TooBig("polynomial too large")
    items.sort(key=lambda mc: tuple((a.dig, e) for a, e in mc[0]))
    out = []
    for m, c in items:
        if isinstance(c, Fraction) and c.denominator == 1: c = int(c)
        out.append((m, c))
    return raw("poly", tuple(out))
def const(c):
    if isinstance(c, bool): c = int(c)
    return mkpoly({(): c})
def atom(a):
    assert a.op != "poly", a
    return mkpoly({((a, 1),): 1})
def ispoly(t): return isinstance(t, T) and t.op == "poly"
def constval(t):
    if t.op != "poly": return None
    if not t.args[0]: return 0
    if len(t.args[0]) == 1 and t.args[0][0][0] == (): return t.args[0][0][1]
    return None
def single_atom(t):
    if t.op == "poly" and len(t.args[0]) == 1:
        m, c = t.args[0][0]
        if c == 1 and len(m) == 1 and m[0][1] == 1: return m[0][0]
    return None

def mono_mul(m1, m2):
    """product of two monomials; None if it is zero"""
    if not m1: return m2
    if not m2: return m1
    d = {}
    for a, e in m1: d[a] = e
    for a, e in m2: d[a] = d.get(a, 0) + e
    les = {}
    out = {}
    for a, e in d.items():
        if e == 0: continue
        if a.op == "le":
            q, k = a.args
            if q in les: les[q] = min(les[q], k)
            else: les[q] = k
        elif isbool(a):
            # an absent key counts as zero
            if a.op == "mhas" and any(b.op == "mget" and b.args[0] is a.args[0] and b.args[1] is a.args[1] for b in d): continue
            out[a] = 1
        elif a.op == "par":
            if e % 2: out[a] = 1
        else: out[a] = e
    for q, k in les.items(): out[raw("le", q, k)] = 1
    return tuple(sorted(out.items(), key=lambda ae: ae[0].dig))

def padd(a, b):
    if a is ZERO: return b
    if b is ZERO: return a
    d = dict(a.args[0])
    for m, c in b.args[0]: d[m] = d.get(m, 0) + c
    return mkpoly(d)
def pscale(a, c):
    if c == 0: return ZERO
    if c == 1: return a
    return mkpoly({m: k * c for m, k in a.args[0]})
def pneg(a): return pscale(a, -1)
def psub(a, b): return padd(a, pneg(b))
def pmul(a, b):
    if a is ZERO or b is ZERO: return ZERO
    if a is ONE: return b
    if b is ONE: return a
    if len(a.args[0]) * len(b.args[0]) > 20000: raise TooBig("product too large")
    d = {}
    for m1, c1 in a.args[0]:
        for m2, c2 in b.args[0]:
            m = mono_mul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return mkpoly(d)
def ppow(a, n):
    r = ONE
    for _ in range(n): r = pmul(r, a)
    return r
ZERO = mkpoly({}); ONE = mkpoly({(): 1})

def pnot(a): return psub(ONE, a)
def pand(a, b): return pmul(a, b)
def por(a, b): return psub(padd(a, b), pmul(a, b))

# ---------------------------------------------------------------- facts about symbols (bounds)
_bounds = {}    # T (sym) -> (lo poly|None, hi poly|None)
def set_bounds(sym, lo, hi): _bounds[sym] = (lo, hi)
def bounds_of(a):
    b = _bounds.get(a)
    if b is None and a.op == "first": b = (ZERO, psub(a.args[0], ONE))      # only ever read where such an element exists
    return b
ENUM_RANGE = {}
NONNEG_APPS = set()
def atom_range(a):
    """constant range of an atom (lo, hi), None = unbounded"""
    if isbool(a): return (0, 1)
    if a.op == "len": return (0, None)
    if a.op == "cmp": return (-1, 1)
    if a.op == "par": return (-1, 1)
    if a.op == "first": return (0, None)
    if a.op == "field" and a.args[1] == "denominator_": return (1, None)      # every rational is kept in lowest terms with a positive denominator
    if a.op == "app" and a.args[0] == "gcd": return (0, None)
    if a.op == "field" and a.args[1] in COUNTS and a.args[0].op == "at" and a.args[0].args[0].op == "field" and a.args[0].args[0].args[1] == "elements_": return (0, None)
    if a.op in _sorted_ops and isinstance(a.args[-1], str) and a.args[-1].startswith("e:"): return (0, ENUM_RANGE.get(a.args[-1][2:], None))
    if a.op in _sorted_ops and a.args[-1] == "u": return (0, None)
    if a.op == "sum":
        lo, hi = prange(a.args[2])
        return (0 if lo is not None and lo >= 0 else None, None)
    if a in _bounds:
        lo, hi = _bounds[a]
        l = prange(lo)[0] if lo is not None else None
        h = prange(hi)[1] if hi is not None else None
        return (l, h)
    return (None, None)
COUNTS = ("first", "second")     # numbers of operators in a row of a graph matrix: never negative
_sorted_ops = ("sym", "app", "field", "at", "mget", "fold", "mu", "bv")
def prange(p):
    lo = 0; hi = 0
    for m, c in p.args[0]:
        if m == ():
            if lo is not None: lo += c
            if hi is not None: hi += c
            continue
        l, h = 1, 1
        for a, e in m:
            al, ah = atom_range(a)
            if e < 0: al, ah = None, None
            if al is not None and al >= 0 and l is not None and l >= 0:
                l = l * al ** e
                h = None if (h is None or ah is None) else h * ah ** e
            elif len(m) == 1 and e == 1: l, h = al, ah
            elif None not in (al, ah, l, h) and e == 1:
                ps = (l * al, l * ah, h * al, h * ah); l, h = min(ps), max(ps)
            else: l, h = None, None; break
        if c < 0: l, h = (None if h is None else h * c), (None if l is None else l * c)
        else: l, h = (None if l is None else l * c), (None if h is None else h * c)
        lo = None if lo is None or l is None else lo + l
        hi = None if hi is None or h is None else hi + h
    return lo, hi
def linear_coef(p, a):
    """(coefficient of a, rest) if p is linear in atom a and a occurs nowhere else, else None"""
    co = 0; rest = {}
    for m, c in p.args[0]:
        d = dict(m)
        if a in d:
            if len(m) != 1 or d[a] != 1: return None
            co = c
        else:
            if any(a in x.syms for x, _ in m): return None
            rest[m] = c
    return co, mkpoly(rest)
def pmax(p, depth=0):
    """an upper bound of p as an int, using symbol bounds"""
    lo, hi = prange(p)
    if hi is not None: return hi
    if depth > 3: return None
    cands = sorted((x for x in p.syms if x in _bounds), key=lambda x: -x.args[0] if x.op == "bv" else 0)
    for m, c in p.args[0]:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "first" and m[0][0] not in cands: cands.insert(0, m[0][0])
    for s in cands:
        lc = linear_coef(p, s)
        if not lc or lc[0] == 0: continue
        bs = bounds_of(s)
        b = bs[1] if lc[0] > 0 else bs[0]
        if b is None: continue
        r = pmax(padd(lc[1], pscale(b, lc[0])), depth + 1)
        if r is not None: return r
    return None
def pmin(p):
    r = pmax(pneg(p))
    return None if r is None else -r

# ---------------------------------------------------------------- comparisons
def content_norm(p):
    """p = c*q + k0 with q without constant term, primitive, leading coefficient positive: (q, c, k0)"""
    k0 = 0; items = []
    for m, c in p.args[0]:
        if m == (): k0 = c
        else: items.append((m, c))
    if not items: return None, 0, k0
    from math import gcd
    den = 1
    for _, c in items:
        d = Fraction(c).denominator; den = den * d // gcd(den, d)
    g = 0
    for _, c in items: g = gcd(g, int(Fraction(c) * den))
    sc = Fraction(g, den)
    if items[0][1] < 0: sc = -sc
    return mkpoly({m: Fraction(c) / sc for m, c in items}), sc, k0

def le(p, k):
    """[p <= k] for an integer-valued p"""
    p = padd(p, const(-k))
    cs = liftable(p)
    if cs: return split(cs, p, lambda q: le0(q))
    return le0(p)
def le0(p):
    c = constval(p)
    if c is not None: return ONE if c <= 0 else ZERO
    hi = pmax(p)
    if hi is not None and hi <= 0: return ONE
    lo = pmin(p)
    if lo is not None and lo > 0: return ZERO
    q, sc, k0 = content_norm(p)
    # sc*q + k0 <= 0
    import math
    if k0 == 0 and len(q.args[0]) == 1 and sc > 0 and len(q.args[0][0][0]) > 1 and all(e > 0 and a.op in ("field", "len") and atom_range(a)[0] == 0 for a, e in q.args[0][0][0]):
        # a product of counts vanishes when one of them does
        r = ONE
        for a, e in q.args[0][0][0]: r = pmul(r, pnot(le0(atom(a))))
        return pnot(r)
    if k0 == 0 and sc > 0 and 2 <= len(q.args[0]) <= 4 and all(c > 0 and m and all(e > 0 and a.op in ("field", "len", "at") and atom_range(a)[0] == 0 for a, e in m) for m, c in q.args[0]):
        # a sum of counts vanishes when all of them do
        r = ONE
        for m, c in q.args[0]: r = pmul(r, le0(mkpoly({m: 1})))
        return r
    r = occurs(q, sc, k0)
    if r is not None: return r
    if sc > 0:
        bound = math.floor(Fraction(-k0) / sc)
        return atom(raw("le", q, int(bound)))
    bound = math.ceil(Fraction(-k0) / sc)     # q >= bound
    return pnot(atom(raw("le", q, int(bound) - 1)))
def occurs(q, sc, k0):
    """sc*(number of i with B(i)) + k0 <= 0 where the answer only depends on whether there is such an i"""
    import math
    n = None
    for m, c in q.args[0]:
        if len(m) != 1 or m[0][1] != 1 or m[0][0].op != "sum" or abs(c) != 1: return None
        if n is not None and m[0][0].args[0] is not n: return None
        n = m[0][0].args[0]
    if n is None or len(q.args[0]) > 4: return None
    v = fresh("n", "i"); va = single_atom(v); set_bounds(va, ZERO, psub(n, ONE))
    b = ZERO
    for m, c in q.args[0]: b = padd(b, pscale(inst(m[0][0], v), c))
    if not all(isbool(a) for m, _ in b.args[0] for a, _ in m): return None
    if pmul(b, b) is not b:
        b = pneg(b); sc = -sc
        if pmul(b, b) is not b: return None
    if sc > 0:
        bound = math.floor(Fraction(-k0) / sc)
        if bound < 0: return ZERO
        return pnot(bind("any", n, va, b)) if bound == 0 else None
    bound = math.ceil(Fraction(-k0) / sc)
    if bound <= 0: return ONE
    return bind("any", n, va, b) if bound == 1 else None
def lt(a, b): return le(psub(a, b), -1)
def leq(a, b): return le(psub(a, b), 0)
def eqi(a, b):
    """[a == b] for integers"""
    d = psub(a, b)
    if len(d.args[0]) == 2 and sum(k for _, k in d.args[0]) == 0:
        # fractions in lowest terms with positive denominators: equal cross products mean equal parts
        ms = [[(x, e) for x, e in m if x.op == "field" and x.args[1] in ("numerator_", "denominator_") and e == 1] for m, k in d.args[0]]
        if all(len(q) == 2 == len(m) and {x.args[1] for x, _ in q} == {"numerator_", "denominator_"} for q, (m, _) in zip(ms, d.args[0])):
            (n1, d1), (n2, d2) = [tuple(next(x.args[0] for x, _ in q if x.args[1] == w) for w in ("numerator_", "denominator_")) for q in ms]
            if n1 is d2 and n2 is d1 and n1 is not n2:
                f = {x.args[1] + str(x.args[0].dig): x for q in ms for x, _ in q}
                g = lambda o, w: atom(f[w + str(o.dig)])
                return pmul(eqi(g(n1, "numerator_"), g(n2, "numerator_")), eqi(g(n1, "denominator_"), g(n2, "denominator_")))
    if len(d.args[0]) == 1 and len(d.args[0][0][0]) == 1:
        x, e = d.args[0][0][0][0]
        if e == 1 and x.op == "app" and x.args[0] == "rational::numerator" and ispoly(x.args[1][0] if isinstance(x.args[1], tuple) else x.args[1]): return eqr(x.args[1][0] if isinstance(x.args[1], tuple) else x.args[1], ZERO)     # a fraction is zero when its numerator is
    return psub(le(d, 0), le(d, -1))
def eqr(a, b):
    """[a == b] for exact rationals"""
    d = psub(a, b)
    cs = liftable(d)
    if cs: return split(cs, d, _eq0)
    return _eq0(d)
def _eq0(d):
    c = constval(d)
    if c is not None: return ONE if c == 0 else ZERO
    q, sc, k0 = content_norm(d)
    q = padd(q, const(Fraction(k0) / sc))
    lo = pmin(d)
    if lo is not None and lo > 0: return ZERO
    hi = pmax(d)
    if hi is not None and hi < 0: return ZERO
    return atom(raw("eq0", q))

# ---------------------------------------------------------------- case splits
MAXLIFT = 9
def liftable(*ts):
    cs = set()
    for t in ts:
        if isinstance(t, T): cs |= t.conds
        elif isinstance(t, tuple): cs |= liftable(*t)
    if len(cs) > MAXLIFT: return set()
    return cs
def topmost(cs):
    """pick the atom to split on: one which is not nested inside another condition atom"""
    return min(cs, key=lambda a: (a.size, a.dig))
def split(cs, t, f):
    """f applied to every case of the conditions cs in t; result as an indicator polynomial"""
    cs = t_conds(t) & cs if not isinstance(cs, frozenset) else cs & t_conds(t)
    if not cs: return f(t)
    a = topmost(cs)
    t1 = assume(t, a, True); t0 = assume(t, a, False)
    r1 = split(frozenset(cs), t1, f); r0 = split(frozenset(cs), t0, f)
    if r1 is r0: return r1
    if ispoly(r1) and ispoly(r0): return padd(pmul(atom(a), r1), pmul(pnot(atom(a)), r0))
    return ite(atom(a), r1, r0)
def t_conds(t):
    if isinstance(t, T): return t.conds
    s = frozenset()
    for x in t:
        if isinstance(x, (T, tuple)): s |= t_conds(x)
    return s

_assume_memo = {}
def assume(t, a, val):
    """t under the assumption that indicator atom a is val (True/False)"""
    if isinstance(t, tuple): return tuple(assume(x, a, val) for x in t)
    if not isinstance(t, T): return t
    if not _touches(t, a): return t
    k = (t, a, val, active_key(t))
    r = _assume_memo.get(k)
    if r is not None: return r
    r = _assume(t, a, val)
    _assume_memo[k] = r
    return r
_occ = {}
def _contains(t, xs):
    if isinstance(t, tuple): return any(_contains(x, xs) for x in t)
    if not isinstance(t, T): return False
    if t in xs: return True
    k = (t, xs); r = _occ.get(k)
    if r is None:
        r = _occ[k] = any(_contains(x, xs) for x in t.args if isinstance(x, (T, tuple)))
    return r
def _touches(t, a):
    if a in t.conds: return True
    if a.op == "mhas": return _contains(t, tuple(raw("mget", a.args[0], a.args[1], so) for so in ("n", "q")))
    if a.op == "any": return _contains(t, (raw("first", *a.args),))
    if a.op == "le":
        for c in t.conds:
            if c.op == "le" and c.args[0] is a.args[0]: return True
    return False
def atom_under(x, a, val):
    """value of indicator atom x under a=val, or None"""
    if x is a: return 1 if val else 0
    if a.op == "any" and not val and x.op == "first" and x.args == a.args: return x.args[0]
    if a.op == "mhas" and not val and x.op == "mget" and x.args[0] is a.args[0] and x.args[1] is a.args[1] and x.args[2] in ("n", "q"): return 0
    if a.op == "le" and x.op == "le" and x.args[0] is a.args[0]:
        if val and x.args[1] >= a.args[1]: return 1
        if not val and x.args[1] <= a.args[1]: return 0
    return None
def _assume(t, a, val):
    v = atom_under(t, a, val)
    if v is not None: return v if isinstance(v, T) else const(v)
    if t.op == "poly":
        r = None; acc = {}
        for m, c in t.args[0]:
            simple = True; mm = []; zero = False
            for x, e in m:
                v = atom_under(x, a, val)
                if isinstance(v, T): simple = False; break
                if v is not None:
                    if v == 0: zero = True; break
                    continue
                if _touches(x, a): simple = False; break
                mm.append((x, e))
            if zero: continue
            if simple:
                mm = tuple(mm); acc[mm] = acc.get(mm, 0) + c
            else:
                p = const(c)
                for x, e in m:
                    v = atom_under(x, a, val)
                    if v is not None: y = v if isinstance(v, T) else const(v)
                    elif _touches(x, a): y = rebuild_atom(x, lambda z: assume(z, a, val))
                    else: y = atom(x)
                    p = pmul(p, ppow(y, e) if e >= 0 else pinv(ppow(y, -e)))
                r = p if r is None else padd(r, p)
        res = mkpoly(acc)
        return res if r is None else padd(res, r)
    return rebuild(t, lambda z: assume(z, a, val))

def cond_literals(c):
    """if indicator polynomial c is a conjunction of literals, the list [(atom, bool)]"""
    out = []
    while True:
        cv = constval(c)
        if cv is not None: return out if cv == 1 else None
        ms = c.args[0]
        # find an atom present in every monomial -> positive literal
        common = set(a for a, _ in ms[0][0])
        for m, _ in ms[1:]: common &= set(a for a, _ in m)
        common = [a for a in common if isbool(a)]
        if common:
            a = min(common, key=lambda a: a.dig)
            out.append((a, True)); c = assume(c, a, True); continue
        done = False
        for a in sorted(set(x for m, _ in ms for x, _ in m if isbool(x)), key=lambda a: a.dig):
            if assume(c, a, True) is ZERO:
                out.append((a, False)); c = assume(c, a, False); done = True; break
        if not done: return None
def assume_cond(t, c):
    """simplify t knowing that the condition c holds (conjunctive parts only)"""
    for a, v in conj_literals(c):
        t = assume(t, a, v); c = assume(c, a, v)
    if isinstance(t, T) and t.op == "ite" and t.args[0] in c.conds:
        p = t.args[0]
        x1, x0 = assume_cond(t.args[1], assume(c, p, True)), assume_cond(t.args[2], assume(c, p, False))
        if x1 is not t.args[1] or x0 is not t.args[2]: t = ite(atom(p), x1, x0)
    return t
def conj_literals(c):
    """literals implied by condition c"""
    out = []
    n = 0
    while n < 12:
        n += 1
        if constval(c) is not None: return out
        found = None
        for a in sorted(c_atoms(c), key=lambda a: a.dig):
            if assume(c, a, False) is ZERO: found = (a, True); break
            if assume(c, a, True) is ZERO: found = (a, False); break
        if not found: return out
        out.append(found); c = assume(c, *found)
    return out
def c_atoms(c): return set(x for m, _ in c.args[0] for x, _ in m if isbool(x))

def ite(c, a, b):
    if a is b: return a
    cv = constval(c)
    if cv is not None: return a if cv == 1 else b
    if ispoly(a) and ispoly(b): return padd(b, pmul(c, psub(a, b)))
    if ispoly(a) != ispoly(b): return raw("bad", "ite")
    # structural
    lits = c_atoms(c)
    spine = set(lits)
    for x in (a, b):
        if x.op == "ite": spine.add(x.args[0])
    p = min(spine, key=lambda x: x.dig)
    c1, c0 = assume(c, p, True), assume(c, p, False)
    a1, a0, b1, b0 = assume(a, p, True), assume(a, p, False), assume(b, p, True), assume(b, p, False)
    t = ite(c1, a1, b1); f = ite(c0, a0, b0)
    return mkite(p, t, f)
def mkite(p, t, f):
    if t is f: return t
    s = sink(p, t, f)
    if s is not None: return s
    return raw("ite", p, t, f)
def _iteany(p, t, f):
    if t is f: return t
    if isinstance(t, T) and isinstance(f, T): return ite(atom(p), t, f)
    if isinstance(t, tuple) and isinstance(f, tuple) and len(t) == len(f): return tuple(_iteany(p, x, y) for x, y in zip(t, f))
    raise TypeError
def sink(p, t, f):
    """push the case distinction into equal constructors"""
    if t.op == "cat" or f.op == "cat" or t.op == "el" or f.op == "el":
        P, Q = parts(t), parts(f)
        i = 0
        while i < len(P) and i < len(Q) and P[i] is Q[i]: i += 1
        j = 0
        while j < len(P) - i and j < len(Q) - i and P[len(P) - 1 - j] is Q[len(Q) - 1 - j]: j += 1
        mp, mq = P[i:len(P) - j], Q[i:len(Q) - j]
        if len(mp) == 1 and len(mq) == 1 and mp[0].op == "el" and mq[0].op == "el" and ispoly(mp[0].args[0]) == ispoly(mq[0].args[0]):
            return cat(*P[:i], el(ite(atom(p), mp[0].args[0], mq[0].args[0])), *P[len(P) - j:])
        if i or j: return cat(*P[:i], mkite(p, cat(*mp), cat(*mq)), *P[len(P) - j:])
        return None
    if (t.op == "rec" or f.op == "rec"):
        bt = t.args[1] if t.op == "rec" else t
        bf = f.args[1] if f.op == "rec" else f
        if bt is bf and (t.op != "rec" or f.op != "rec" or t.args[0] == f.args[0]):
            fs = {n: (so, v) for n, so, v in t.args[2]} if t.op == "rec" else {}
            gs = {n: (so, v) for n, so, v in f.args[2]} if f.op == "rec" else {}
            out = []
            for n in sorted(set(fs) | set(gs)):
                so = (fs.get(n) or gs.get(n))[0]
                if bt is None and (n not in fs or n not in gs): return None
                x = fs[n][1] if n in fs else field(bt, n, so)
                y = gs[n][1] if n in gs else field(bt, n, so)
                out.append((n, so, ite(atom(p), x, y)))
            return rec(t.args[0] if t.op == "rec" else f.args[0], bt, tuple(out))
        return None
    if t.op == f.op == "lin": return lin(ite(atom(p), t.args[0], f.args[0]))
    if t.op == "lin" or f.op == "lin":
        if (t.op in ("lin", "mempty") or is_opaque(t)) and (f.op in ("lin", "mempty") or is_opaque(f)): return lin(ite(atom(p), tolin(t), tolin(f)))
    if t.op == "upd" or f.op == "upd":
        u, o = (t, f) if t.op == "upd" else (f, t)
        if u.args[0] is o or (o.op == "upd" and o.args[0] is u.args[0] and o.args[1] is u.args[1]):
            l, i = u.args[0], u.args[1]
            def val(z):
                if z.op == "upd" and z.args[0] is l and z.args[1] is i: return z.args[2]
                w = u.args[2]
                return at(l, i, u.args[3])
            x, y = val(t), val(f)
            if ispoly(x) == ispoly(y): return upd(l, i, ite(atom(p), x, y), u.args[3])
    if t.op == f.op and t.op in ("app",) and t.args[0] == f.args[0] and len(t.args[1]) == len(f.args[1]):
        if any((isinstance(x, T) != isinstance(y, T)) or (isinstance(x, T) and ispoly(x) != ispoly(y)) for x, y in zip(t.args[1], f.args[1])): return None
        if any(not isinstance(x, T) and x != y for x, y in zip(t.args[1], f.args[1])): return None
        return app(t.args[0], tuple(x if x is y else ite(atom(p), x, y) for x, y in zip(t.args[1], f.args[1])), t.args[2])
    if t.op == f.op == "mset" and t.args[1] is f.args[1]:
        if ispoly(t.args[2]) == ispoly(f.args[2]):
            return mset(ite(atom(p), t.args[0], f.args[0]), t.args[1], ite(atom(p), t.args[2], f.args[2]))
    if t.op == f.op == "cmap" and t.args[0] is f.args[0]:
        va, x = openb(t); y = inst(f, atom(va))
        return bind("cmap", t.args[0], va, ite(atom(p), x, y))
    return None
def is_opaque(t): return t.op in ("sym", "bv", "field", "at", "app", "mget", "fold", "mu")
def lin(p):
    a = single_atom(p)
    if p is ZERO: return MEMPTY
    if a is not None and a.op == "linof": return a.args[0]
    return raw("lin", p)
def tolin(m):
    if m.op == "lin": return m.args[0]
    if m.op == "mempty": return ZERO
    if m.op == "ite": return ite(atom(m.args[0]), tolin(m.args[1]), tolin(m.args[2]))
    return atom(raw("linof", m))
def basis(k):
    if k.conds and liftable(k): return split(frozenset(liftable(k)), k, lambda z: atom(raw("basis", z)))
    return atom(raw("basis", k))

# ---------------------------------------------------------------- generic nodes
IGNORED = {"timers_"}    # statistics, which influence no result
REC_FIELDS = {}      # record type name -> tuple of field names
def wrap(t, sort):
    """scalar-sorted atoms are polynomials"""
    return t if sort == "s" else atom(t)
def sym(name, sort): return wrap(raw("sym", name, sort), sort)
import os
_fresh = itertools.count(int(os.environ.get("FRESH0", "0")))
def fresh(sort, hint="v"): return sym("%s#%d" % (hint, next(_fresh)), sort)

def app(name, args, sort):
    """uninterpreted operation"""
    if name.startswith("operator==") and len(args) == 2 and args[0].dig > args[1].dig: args = (args[1], args[0])
    if len(args) == 2 and args[0] is args[1] and isinstance(name, str):
        if name.startswith("operator< of "): return ZERO
        if name.startswith("operator== of "): return ONE
    if sort != "s":
        cs = liftable(args)
        if cs: return split(frozenset(cs), args, lambda z: app(name, z, sort))
        if name == "permutation_sign" and len(args) == 1:
            # of an explicit list (the function itself is compared with its definition under C21)
            ks = [constval(p.args[0]) if p.op == "el" and ispoly(p.args[0]) else None for p in (args[0].args if args[0].op == "cat" else () if args[0] is EMPTY else (args[0],))]
            if None not in ks: return ONE if sum(x > y for i, x in enumerate(ks) for y in ks[i + 1:]) % 2 == 0 else const(-1)
        return atom(raw("app", name, args, sort))
    # structural: a case distinction in one argument only stays in the argument
    return raw("app", name, args, sort)

def par(x):
    """(-1)^x"""
    cs = liftable(x)
    if cs: return split(frozenset(cs), x, par)
    r = ONE; g = dict(x.args[0])
    # halves: a*y + b*y^2 with half-integral a and b is 2b*C(y, 2) + (a + b)*y
    for m in [m for m, c in g.items() if isinstance(c, Fraction) and c.denominator == 2 and len(m) == 1 and m[0][1] == 2]:
        y = m[0][0]; m1 = ((y, 1),); a = g.get(m1, 0); b = g[m]
        if isinstance(a, Fraction) and a.denominator == 2:
            del g[m]; g[m1] = norm_num(a + b)
            r = pmul(r, atom(raw("par", mkpoly({m: Fraction(1, 2), m1: Fraction(-1, 2)}))))
    if any(isinstance(c, Fraction) for c in g.values()):
        # n/2 -+ sum_i q(i)/2 with q(i) = +-1 counts the indices where q is negative
        for m, c in list(g.items()):
            if c not in (Fraction(1, 2), Fraction(-1, 2)): continue
            ss = [a for a, e in m if a.op == "sum" and e == 1]
            if len(ss) != 1 or not all(a.op == "par" for a, e in m if a is not ss[0]): continue
            n, h, b = ss[0].args
            if len(b.args[0]) != 1 or b.args[0][0][1] not in (1, -1) or not all(a.op == "par" for a, e in b.args[0][0][0]): continue
            e_ = const(0 if (c * b.args[0][0][1]) < 0 else 1)
            for a, e in b.args[0][0][0]: e_ = padd(e_, a.args[0])
            for a, e in m:
                if a is not ss[0]: e_ = padd(e_, a.args[0])
            rest = psub(psub(mkpoly(g), pscale(n, Fraction(1, 2))), mkpoly({m: c}))
            if len(rest.args[0]) < len(g) or any(not isinstance(x, Fraction) for x in [k for _, k in rest.args[0]]) or not rest.args[0]:
                return pmul(r, pmul(par(rest), par(mkbinder("sum", n, h, e_))))
        return pmul(r, atom(raw("par", mkpoly({m: norm_num(Fraction(c) % 2) for m, c in g.items()}))))
    rest = {}
    for m, c in g.items():
        if c % 2 == 0: continue
        if m == (): r = pneg(r); continue
        # parity of a monomial ignores exponents
        mm = tuple((a, 1) for a, e in m if e > 0)
        rest[mm] = (rest.get(mm, 0) + 1) % 2
    for m, c in sorted(rest.items(), key=lambda mc: tuple(a.dig for a, _ in mc[0])):
        if c:
            q = mkpoly({m: 1})
            if len(m) == 1 and m[0][0].op == "sum":
                n, h, b = m[0][0].args
                b2 = mod2(b)
                if b2 is not b:
                    r = pmul(r, par(mkbinder("sum", n, h, b2))); continue
            r = pmul(r, atom(raw("par", q)))
    return r
def norm_num(c): return int(c) if isinstance(c, Fraction) and c.denominator == 1 else c
def mod2(p):
    """a polynomial with the same parity"""
    if not ispoly(p): return p
    if any(isinstance(c, Fraction) for m, c in p.args[0]):
        # m/2 - m*par(x)/2 is m*(x mod 2)
        d = dict(p.args[0])
        for m, c in list(d.items()):
            if m not in d or not isinstance(d[m], Fraction) or abs(d[m]) != Fraction(1, 2): continue
            for m2, c2 in list(d.items()):
                if m2 == m or m not in d or m2 not in d or d[m2] not in (Fraction(1, 2), Fraction(-1, 2)): continue
                extra = [(a, e) for a, e in m2 if (a, e) not in m]
                if len(m2) - len(extra) != len(m) or not extra or not all(a.op == "par" and e == 1 for a, e in extra): continue
                x = ZERO
                for a, e in extra: x = padd(x, a.args[0])
                if d[m] == d[m2]: x = padd(x, ONE)
                rest = {k: v for k, v in d.items() if k not in (m, m2)}
                return mod2(padd(mkpoly(rest), pmul(mkpoly({m: 1}), x)))
        return p
    g = {}
    for m, c in p.args[0]:
        if c % 2 == 0: continue
        mm = tuple((a, 1) for a, e in m if e > 0)
        if any(e < 0 for a, e in m): return p
        g[mm] = (g.get(mm, 0) + 1) % 2
    out = ZERO; again = False
    for m, c in g.items():
        if not c: continue
        t = ONE
        for a, e in m:
            w = atom(a)
            if a.op == "sum" and len(m) == 1:
                n, h, b = a.args; b2 = mod2(b)
                if b2 is not b: w = mkbinder("sum", n, h, b2)
            elif sign_test(a):
                w = ZERO
                for x, _ in a.args[0].args[0][0][0]: w = padd(w, x.args[0])
                again = True
            t = pmul(t, w)
        out = padd(out, t)
    return mod2(out) if again else out
def sign_test(a):
    """[q <= 0] for a product q of signs"""
    return a.op == "le" and -1 <= a.args[1] <= 0 and len(a.args[0].args[0]) == 1 and a.args[0].args[0][0][1] == 1 and all(x.op == "par" and e == 1 for x, e in a.args[0].args[0][0][0])
def mod(x, n):
    nv = constval(n)
    if nv == 2:
        return pscale(psub(ONE, par(x)), Fraction(1, 2))
    xv = constval(x)
    if xv is not None and nv not in (None, 0) and xv >= 0 and nv > 0: return const(xv % nv)
    return app("mod", (x, n), "n")
def idiv(x, n):
    xv, nv = constval(x), constval(n)
    if nv == 1: return x
    if xv is not None and nv not in (None, 0):
        q = abs(xv) // abs(nv)
        return const(q if (xv >= 0) == (nv > 0) else -q)
    if xv == 0: return ZERO
    return app("idiv", (x, n), "n")
def pinv(x):
    cs = liftable(x)
    if cs: return split(frozenset(cs), x, _pinv)
    return _pinv(x)
def _pinv(x):
    if len(x.args[0]) == 1:
        m, c = x.args[0][0]
        if c == 0: return app("inv", (x,), "n")
        return mkpoly({mono_norm(tuple((a, (1 if a.op == "par" else -e)) for a, e in m)): Fraction(1) / Fraction(c)})
    if x is ZERO: return atom(raw("app", "inv", (x,), "n"))
    q, sc, k0 = content_norm(x)
    return pscale(atom(raw("app", "inv", (pscale(x, Fraction(1) / sc),), "n")), Fraction(1) / sc)
def mono_norm(m): return tuple(sorted(m, key=lambda ae: ae[0].dig))
def rdiv(a, b): return pmul(a, pinv(b))

# ---------------------------------------------------------------- records
def rec(ty, base, fields):
    """record of type ty: base (or None) with fields ((name, sort, value), ...) overridden"""
    d = {}
    fields = tuple(x for x in fields if x[0] not in IGNORED)
    if base is not None and base.op == "ite":
        return ite(atom(base.args[0]), rec(ty, base.args[1], assume(fields, base.args[0], True)), rec(ty, base.args[2], assume(fields, base.args[0], False)))
    if base is not None and base.op == "rec":
        for n, so, v in base.args[2]: d[n] = (so, v)
        base = base.args[1]
    for n, so, v in fields: d[n] = (so, v)
    allf = REC_FIELDS.get(ty)
    if base is not None:
        d = {n: (so, v) for n, (so, v) in d.items() if v is not field(base, n, so)}
        if not d: return base
        if allf and all(n in d for n in allf): base = None
    if base is None and allf and all(n in d for n in allf):
        b0 = None
        for n in allf:
            so, v = d[n]; x = single_atom(v) if ispoly(v) else v
            if x is None or x.op != "field" or x.args[1] != n or (b0 is not None and b0 is not x.args[0]): b0 = None; break
            b0 = x.args[0]
        if b0 is not None and b0.op != "rec": return b0
    return raw("rec", ty, base, tuple(sorted(((n, so, v) for n, (so, v) in d.items()), key=lambda z: z[0])))
def recfields(r): return {n: v for n, so, v in r.args[2]}
def field(r, n, sort):
    if r.op == "rec":
        for m, so, v in r.args[2]:
            if m == n: return v
        if r.args[1] is None: return wrap(raw("field", r, n, sort), sort)
        return field(r.args[1], n, sort)
    if r.op == "ite": return ite(atom(r.args[0]), field(r.args[1], n, sort), field(r.args[2], n, sort))
    if sort != "s":
        cs = liftable(r)
        if cs: return split(frozenset(cs), r, lambda z: field(z, n, sort) if z.op in ("rec", "ite") or (z is not r and not z.conds) else atom(raw("field", z, n, sort)))
    return wrap(raw("field", r, n, sort), sort)

# ---------------------------------------------------------------- sequences
def parts(s):
    if s.op == "cat": return list(s.args)
    return [s]
def cat(*ps):
    out = []
    for p in ps:
        if p.op == "cat": out.extend(p.args)
        else: out.append(p)
    if len(out) == 1: return out[0]
    return raw("cat", *out)
EMPTY = raw("cat")
def el(x): return raw("el", x)
def lst(xs): return cat(*[el(x) for x in xs])
def strlit(s): return lst([const(ord(c)) for c in s])
def length(s):
    if s.op == "cat":
        r = ZERO
        for p in s.args: r = padd(r, length(p))
        return r
    if s.op == "el": return ONE
    if s.op == "ite": return ite(atom(s.args[0]), length(s.args[1]), length(s.args[2]))
    if s.op == "cmap":
        n, h, b = s.args
        lb = length(b)
        if not any(x.op == "bv" and x.args[0] == h for x in lb.syms): return pmul(dom(n), lb)
        return mkbinder("sum", n, h, lb)
    if s.op in ("upd", "sort"): return length(s.args[0])
    if s.op == "keepsize": return length(s.args[0])
    if s.op in ("fold", "mu"):
        # a table in which elements are replaced keeps its size
        off = 1 if s.op == "fold" else 0; k = s.args[4]; b = s.args[3][k] if s.op == "fold" else s.args[3][1][k]
        if only_upd(b, s.args[0][k + off]): return length(s.args[2][k + off])
    if s.op == "slice": return psub(s.args[2], s.args[1])
    if s.op == "app" and s.args[0] in ("canonicalize_indices!0", "canonicalize_sqops!0"): return length(s.args[1][0])
    if s in ARRLEN: return const(ARRLEN[s])
    if s.op == "at":
        n = elemlen(s.args[0])
        if n is not None: return n
    cs = liftable(s)
    if cs: return split(frozenset(cs), s, lambda z: length(z) if z is not s and not z.conds else atom(raw("len", z)))
    return atom(raw("len", s))
def elemlen(s):
    """the common length of the elements of a sequence, where all have the same"""
    if s.op == "app" and s.args[0] == "permutations": return length(s.args[1][0])
    if s.op in ("sort", "slice"): return elemlen(s.args[0])
    if s.op in ("cat", "ite"):
        r = None
        for p in s.args if s.op == "cat" else s.args[1:]:
            if p is EMPTY: continue
            n = elemlen(p)
            if n is None or r is not None and n is not r: return None
            r = n
        return r
    if s.op == "el": return None if s.args[0].op == "poly" else length(s.args[0]) if s.args[0].op in ("cmap", "cat", "at", "upd", "sort", "slice") else None
    if s.op == "cmap":
        n = elemlen(s.args[2])
        if n is None or any(x.op == "bv" and x.args[0] == s.args[1] for x in n.syms): return None
        return n
    return None
def only_upd(t, h):
    while t.op == "upd": t = t.args[0]
    if t.op == "ite": return only_upd(t.args[1], h) and only_upd(t.args[2], h)
    return t.op == "bv" and t.args[0] == h
def dom(n):
    """max(n, 0)"""
    m = pmin(n)
    if m is not None and m >= 0: return n
    cv = constval(n)
    if cv is not None: return const(max(cv, 0))
    return atom(raw("app", "max0", (n,), "u"))
def at(s, i, sort):
    if s.op == "el":
        if i is ZERO: return s.args[0]
    if s.op == "ite": return ite(atom(s.args[0]), at(s.args[1], i, sort), at(s.args[2], i, sort))
    if s.op == "cmap" and s.args[2].op == "el":
        return inst(s, i).args[0]
    if s.op == "upd":
        l, j, v, so = s.args
        e = eqi(i, j)
        if e is ONE: return v
        if e is ZERO: return at(l, i, sort)
        return ite(e, v, at(l, i, sort))
    if s.op == "slice": return at(s.args[0], padd(i, s.args[1]), sort)
    if s.op == "cat" and s.args:
        off = i
        for p in s.args:
            n = length(p)
            # off < n ?
            d = lt(off, n)
            if d is ONE:
                m = pmin(off)
                if (m is not None and m >= 0) or True:
                    if p.op == "el": return p.args[0]
                    return at(p, off, sort)
            if d is not ZERO: break
            off = psub(off, n)
        else:
            pass
        # resolve from the back
        off = psub(i, length(s))
        for p in reversed(s.args):
            off = padd(off, length(p))
            m = pmin(off)
            if m is not None and m >= 0: return at(p, off, sort) if p.op != "el" else p.args[0]
            mx = pmax(off)
            if mx is None or mx >= 0: break
    if sort != "s":
        cs = liftable(s, i)
        if cs: return split(frozenset(cs), (s, i), lambda z: at(z[0], z[1], sort) if (z[0] is not s or z[1] is not i) and not t_conds(z) else atom(raw("at", z[0], z[1], sort)))
    return wrap(raw("at", s, i, sort), sort)
def upd(s, i, v, so):
    if s.op == "upd" and s.args[1] is i: return upd(s.args[0], i, v, so)
    if s.op == "ite": return ite(atom(s.args[0]), upd(s.args[1], i, v, so), upd(s.args[2], i, v, so))
    if s.op == "el" and i is ZERO: return el(v)
    x = single_atom(v) if ispoly(v) else v
    if x is not None and x.op == "at" and x.args[0] is s and x.args[1] is i: return s
    if s.op == "cat" and s.args:
        off = i
        for k, p in enumerate(s.args):
            n = length(p)
            d = lt(off, n)
            if d is ONE:
                ps = list(s.args); ps[k] = upd(p, off, v, so); return cat(*ps)
            if d is not ZERO: break
            off = psub(off, n)
        off = psub(i, length(s))
        for k in range(len(s.args) - 1, -1, -1):
            p = s.args[k]; off = padd(off, length(p))
            m = pmin(off)
            if m is not None and m >= 0:
                ps = list(s.args); ps[k] = upd(p, off, v, so); return cat(*ps)
            mx = pmax(off)
            if mx is None or mx >= 0: break
    if s.op == "upd":
        # order independent updates at provably different constant positions
        l, j, w, so2 = s.args
        if eqi(i, j) is ZERO and i.dig < j.dig: return raw("upd", upd(l, i, v, so), j, w, so2)
    return raw("upd", s, i, v, so)
def slc(s, a, b):
    if a is ZERO and b is length(s): return s
    if a is b: return EMPTY
    if s.op == "slice": return slc(s.args[0], padd(a, s.args[1]), padd(b, s.args[1]))
    if s.op == "ite": return ite(atom(s.args[0]), slc(s.args[1], a, b), slc(s.args[2], a, b))
    if s.op == "cat":
        ps = list(s.args); out = []
        # drop whole parts at the front and the back where this is certain
        while ps:
            n = length(ps[0])
            if leq(n, a) is ONE: a = psub(a, n); b = psub(b, n); ps.pop(0)
            else: break
        while ps:
            tot = ZERO
            for p in ps[:-1]: tot = padd(tot, length(p))
            if leq(b, tot) is ONE: ps.pop()
            else: break
        if len(ps) < len(s.args): return slc(cat(*ps), a, b)
        if not ps: return EMPTY
        if a is ZERO:
            # take whole leading parts
            n = length(ps[0])
            if leq(n, b) is ONE and len(ps) > 1: return cat(ps[0], slc(cat(*ps[1:]), ZERO, psub(b, n)))
    if s.op == "cmap" and s.args[2].op == "el":
        v = fresh("n", "i")
        va = single_atom(v); set_bounds(va, ZERO, psub(psub(b, a), ONE))
        return bind("cmap", psub(b, a), va, inst(s, padd(v, a)))
    return raw("slice", s, a, b)
def rev(s):
    if s.op == "cat": return cat(*[rev(p) for p in reversed(s.args)])
    if s.op == "el": return s
    if s.op == "ite": return ite(atom(s.args[0]), rev(s.args[1]), rev(s.args[2]))
    if s.op == "cmap":
        n = s.args[0]
        v = fresh("n", "i"); va = single_atom(v); set_bounds(va, ZERO, psub(n, ONE))
        return bind("cmap", n, va, rev(inst(s, psub(psub(n, ONE), v))))
    n = length(s)
    v = fresh("n", "i"); va = single_atom(v); set_bounds(va, ZERO, psub(n, ONE))
    return bind("cmap", n, va, el(at(s, psub(psub(n, ONE), v), seq_sort(s))))
SEQ_SORT = {}
ARRLEN = {}
def seq_sort(s):
    """sort of the elements of an opaque sequence (registered when the term was made)"""
    return SEQ_SORT.get(s, "s")
def note_seq(s, sort):
    if s.op not in ("cat", "el"): SEQ_SORT.setdefault(s, sort)
    return s

# ---------------------------------------------------------------- maps
def unset(m, k):
    """the map before anything was stored under the key that is about to be stored again"""
    if m.op in ("mset", "mdel") and m.args[1] is k: return unset(m.args[0], k)
    if m.op == "ite":
        x, y = unset(m.args[1], k), unset(m.args[2], k)
        if x is y: return x
    return m
def mset(m, k, v):
    m = unset(m, k)
    x = single_atom(v) if ispoly(v) else v
    if x is not None and x.op == "mget" and x.args[0] is m and x.args[1] is k: return m
    return raw("mset", m, k, v)
def mdel(m, k):
    if m.op in ("mset", "mdel") and m.args[1] is k: return mdel(m.args[0], k)
    if m.op == "mempty": return m
    return raw("mdel", m, k)
MEMPTY = raw("mempty")
def mget(m, k, sort):
    if m.op == "mset":
        e = EQ(m.args[1], k)
        if e is ONE: return m.args[2]
        if e is ZERO: return mget(m.args[0], k, sort)
        return ite(e, m.args[2], mget(m.args[0], k, sort))
    if m.op == "ite": return ite(atom(m.args[0]), mget(m.args[1], k, sort), mget(m.args[2], k, sort))
    if m.op == "mdel": return mget(m.args[0], k, sort)
    kk = single_atom(k) if ispoly(k) else k
    if kk is not None and kk.op == "field" and kk.args[1] == "first" and kk.args[0].op == "at" and kk.args[0].args[0].op == "entries" and kk.args[0].args[0].args[0] is m:
        return field(kk.args[0], "second", sort)
    return wrap(raw("mget", m, k, sort), sort)
def mhas(m, k):
    if m.op == "mempty": return ZERO
    if m.op == "mset":
        e = EQ(m.args[1], k)
        if e is ONE: return ONE
        return por(e, mhas(m.args[0], k))
    if m.op == "mdel":
        e = EQ(m.args[1], k)
        return pand(pnot(e), mhas(m.args[0], k))
    if m.op == "ite": return ite(atom(m.args[0]), mhas(m.args[1], k), mhas(m.args[2], k))
    cs = liftable(m, k)
    if cs: return split(frozenset(cs), (m, k), lambda z: atom(raw("mhas", z[0], z[1], "b")))
    return atom(raw("mhas", m, k, "b"))
def entries(m):
    if m.op == "mempty": return EMPTY
    if m.op == "mset":
        # a constant table: list the entries in key order
        d = {}; x = m
        while x.op == "mset":
            k = x.args[1]
            kv = constval(k) if ispoly(k) else None
            if kv is None:
                kv = _allconst(k) if not ispoly(k) and k.op in ("cat", "el") else None
                if kv is not None: kv = tuple(kv)
            if kv is None: d = None; break
            d.setdefault(kv, (k, x.args[2])); x = x.args[0]
        if d is not None and x is MEMPTY:
            so = lambda v: "n" if ispoly(v) else "s"
            return cat(*[el(rec("std::pair", None, (("first", so(k), k), ("second", so(v), v)))) for _, (k, v) in sorted(d.items())])
    return raw("entries", m)

# ---------------------------------------------------------------- equality / order of structural values
def CMP(a, b):
    """-1/0/1 comparison of two values as a polynomial"""
    if a is b: return ZERO
    if ispoly(a) and ispoly(b):
        d = psub(a, b)
        return psub(psub(ONE, le(d, 0)), le(d, -1))
    if ispoly(a) or ispoly(b): return app("cmp?", (a, b), "n")
    for x, y, s in ((a, b, 1), (b, a, -1)):
        if x.op == "ite":
            return pscale(ite(atom(x.args[0]), CMP(x.args[1], y), CMP(x.args[2], y)), s)
    names = PAIRS.get(a.args[0] if a.op == "rec" else b.args[0] if b.op == "rec" else None) 
    if names and all(x.op != "rec" or (x.args[1] is None and x.args[0] in PAIRS) for x in (a, b)):
        r = ZERO
        srt = {n: so for n, so, v in (a if a.op == "rec" else b).args[2]}
        for n in reversed(names):
            c = CMP(field(a, n, srt[n]), field(b, n, srt[n]))
            r = padd(c, pmul(eqi(c, ZERO), r))
        return r
    la, lb = _allconst(a), _allconst(b)
    if la is not None and lb is not None:
        return const(0 if la == lb else (-1 if la < lb else 1))
    # sequences of provably different length or a differing constant element are not equal, but the order is unknown
    if a.dig > b.dig: return pneg(CMP(b, a))
    cs = liftable(a, b)
    if cs: return split(frozenset(cs), (a, b), lambda z: CMP(z[0], z[1]) if not t_conds(z) else atom(raw("cmp", z[0], z[1])))
    return atom(raw("cmp", a, b))
PAIRS = {}      # record type -> fields in lexicographic order (pairs and tuples)
def _allconst(s):
    out = []
    for p in parts(s):
        if p.op != "el" or not ispoly(p.args[0]): return None
        v = constval(p.args[0])
        if v is None: return None
        out.append(v)
    return out
def EQ(a, b):
    if a is b: return ONE
    if ispoly(a) and ispoly(b): return eqi(a, b)
    if not ispoly(a) and not ispoly(b):
        if a.op == "rec" and b.op == "rec" and a.args[0] == b.args[0] and a.args[1] is None and b.args[1] is None:
            r = ONE
            fa, fb = recfields(a), recfields(b)
            if set(fa) == set(fb):
                for n in fa: r = pmul(r, EQ(fa[n], fb[n]))
                return r
        pa, pb = parts(a), parts(b)
        if (a.op in ("cat", "el") or b.op in ("cat", "el")):
            # strip common prefix/suffix
            i = 0
            while i < len(pa) and i < len(pb) and pa[i] is pb[i]: i += 1
            j = 0
            while j < len(pa) - i and j < len(pb) - i and pa[-1 - j] is pb[-1 - j]: j += 1
            if i or j: return EQ(cat(*pa[i:len(pa) - j]), cat(*pb[i:len(pb) - j]))
            la, lb = length(a), length(b)
            d = eqi(la, lb)
            if d is ZERO: return ZERO
            if all(p.op == "el" for p in pa) and all(p.op == "el" for p in pb) and len(pa) == len(pb):
                r = ONE
                for x, y in zip(pa, pb): r = pmul(r, EQ(x.args[0], y.args[0]))
                return r
            if a is EMPTY: return eqi(lb, ZERO)
            if b is EMPTY: return eqi(la, ZERO)
    c = CMP(a, b)
    return eqi(c, ZERO)
def LT(a, b):
    if ispoly(a) and ispoly(b): return lt(a, b)
    return le(CMP(a, b), -1)

# ---------------------------------------------------------------- binders
def bvsym(h, sort): return raw("bv", h, sort)
_active = {}     # bound variables whose range is known at the moment
def active_key(t):
    return tuple(sorted((x.args[0], _bounds[x][0].dig, _bounds[x][1].dig) for x in _active if x in t.syms)) if _active else ()
class knownrange:
    """the range of bound variable v is known while its binder is being built"""
    def __init__(self, v, n): self.v = v; self.b = (ZERO, psub(n, ONE))
    def __enter__(self): self.old = _bounds.get(self.v); _bounds[self.v] = self.b; _active[self.v] = _active.get(self.v, 0) + 1
    def __exit__(self, *a):
        if self.old is None: del _bounds[self.v]
        else: _bounds[self.v] = self.old
        _active[self.v] -= 1
        if not _active[self.v]: del _active[self.v]
def bind(op, n, va, body):
    """binder over 0 <= va < n"""
    h = body.bh + 1
    srt = va.args[1]
    with knownrange(bvsym(h, srt), n): b = subst(body, {va: wrap(bvsym(h, srt), srt)})
    if b.bh + 1 != h:
        h2 = b.bh + 1
        if h2 != h:
            with knownrange(bvsym(h2, srt), n): b = subst(body, {va: wrap(bvsym(h2, srt), srt)})
            h = h2
    with knownrange(bvsym(h, srt), n): return mkbinder(op, n, h, b)
def usesbv(t, h):
    return any(x.op == "bv" and x.args[0] == h for x in t.syms)
def inst(t, i):
    """instance of a binder's body at index i"""
    n, h, b = t.args
    return subst(b, {bvsym(h, "n"): i})
def openb(t, hint="i"):
    n, h, b = t.args
    v = fresh("n", hint); va = single_atom(v); set_bounds(va, ZERO, psub(n, ONE))
    return va, subst(b, {bvsym(h, "n"): v})
def mkbinder(op, n, h, b):
    a0 = single_atom(n) if op in ("sum", "any", "prod", "cmap") else None
    if a0 is not None and a0.op == "app" and a0.args[0] == "max0": n = a0.args[1][0]
    nv = constval(n)
    if op in ("sum", "any", "prod", "cmap") and nv is not None and nv <= 0:
        return {"sum": ZERO, "any": ZERO, "prod": ONE, "cmap": EMPTY}[op]
    if nv is not None and nv <= 6 and op in ("sum", "any", "prod", "cmap"):
        xs = [subst(b, {bvsym(h, "n"): const(k)}) for k in range(nv)]
        if op == "cmap": return cat(*xs)
        r = xs[0]
        for x in xs[1:]: r = padd(r, x) if op == "sum" else pmul(r, x) if op == "prod" else por(r, x)
        return r
    if op == "cmap":
        if b is EMPTY: return EMPTY
        if b.op == "el":
            x = b.args[0]; a = single_atom(x) if ispoly(x) else x
            if a is not None and a.op == "at" and single_atom(a.args[1]) is bvsym(h, "n") and not usesbv(a.args[0], h) and length(a.args[0]) is n:
                return a.args[0]
            if a is not None and a.op == "at" and not usesbv(a.args[0], h):
                lc = linear_coef(a.args[1], bvsym(h, "n"))
                if lc and lc[0] == 1 and not usesbv(lc[1], h):
                    return slc(a.args[0], lc[1], padd(lc[1], n))
        if b.op == "cmap" and b.args[2].op != "el": pass
        return raw("cmap", n, h, b)
    if op == "any":
        if b is ZERO: return ZERO
        if not usesbv(b, h): return pmul(b, lt(ZERO, n))
        # pull out conditions which do not depend on the index
        inv = [c for c in b.conds if not usesbv(c, h)]
        if inv and len(inv) <= MAXLIFT:
            a = topmost(inv)
            return ite(atom(a), rebind("any", n, h, assume(b, a, True)), rebind("any", n, h, assume(b, a, False)))
        return atom(raw("any", n, h, b))
    if op == "sum":
        if not usesbv(b, h): return pmul(dom(n), b)
        r = ZERO
        for m, c in b.args[0]:
            dep = tuple((a, e) for a, e in m if usesbv(a, h)); ind = tuple((a, e) for a, e in m if not usesbv(a, h))
            if not dep: r = padd(r, pmul(dom(n), mkpoly({ind: c}))); continue
            bb = mkpoly({dep: 1})
            f = resum(n, h, dep)
            if f is not None: r = padd(r, pmul(mkpoly({ind: c}), f)); continue
            f = faulhaber(n, h, dep)
            if f is not None: r = padd(r, pmul(mkpoly({ind: c}), f)); continue
            r = padd(r, pmul(mkpoly({ind: c}), rawbind("sum", n, h, bb)))
        return r
    if op == "prod":
        if not usesbv(b, h): return app("pow", (b, dom(n)), "n") if constval(b) not in (1, 0, -1) else (ONE if b is ONE else par(dom(n)) if constval(b) == -1 else app("pow", (b, dom(n)), "n"))
        p = as_parity(b)
        if p is not None: return par(rebind("sum", n, h, p))
        if not b.conds and subst(b, {bvsym(h, "n"): ZERO}) is ONE: return rebind("prod", psub(n, ONE), h, subst(b, {bvsym(h, "n"): padd(atom(bvsym(h, "n")), ONE)}))
        if len(b.args[0]) == 1:
            m, c = b.args[0][0]
            r = ONE
            if c == -1: r = par(dom(n))
            elif c != 1: r = app("pow", (const(c), dom(n)), "n")
            for a, e in m:
                if not usesbv(a, h): x = app("pow", (atom(a), dom(n)), "n")
                elif a.op == "par": x = par(rebind("sum", n, h, a.args[0]))
                else: x = rawbind("prod", n, h, atom(a))
                r = pmul(r, ppow(x, e) if e >= 0 else pinv(ppow(x, -e)))
            return r
        inv = [c for c in b.conds if not usesbv(c, h)]
        if inv and len(inv) <= 4:
            a = topmost(inv)
            return ite(atom(a), rebind("prod", n, h, assume(b, a, True)), rebind("prod", n, h, assume(b, a, False)))
        return atom(raw("prod", n, h, b))
    if op == "first":
        if nv is not None and nv <= 6:
            r = const(max(nv, 0))
            for k in reversed(range(max(nv, 0))): r = ite(subst(b, {bvsym(h, "n"): const(k)}), const(k), r)
            return r
        return atom(raw("first", n, h, b))
    return raw(op, n, h, b)
def rebind(op, n, h, b):
    """bind again after the body changed (heights may have shrunk)"""
    v = fresh("n", "i"); va = single_atom(v); set_bounds(va, ZERO, psub(n, ONE))
    return bind(op, n, va, subst(b, {bvsym(h, "n"): v}))
def rawbind(op, n, h, b):
    h2 = max([0] + [a.bh for m, _ in b.args[0] for a, _ in m]) + 1
    if h2 != h: b = subst(b, {bvsym(h, "n"): wrap(bvsym(h2, "n"), "n")}); h = h2
    return atom(raw(op, n, h, b))
def resum(n, h, dep):
    """sum over all entries (k, v) of a map of v * basis(k) is the map itself, read as a linear combination"""
    if len(dep) != 2 or any(e != 1 for a, e in dep): return None
    b = [a for a, e in dep if a.op == "basis"]; v = [a for a, e in dep if a.op == "field" and a.args[1] == "second"]
    if len(b) != 1 or len(v) != 1: return None
    k = b[0].args[0]; en = v[0].args[0]
    k = single_atom(k) if ispoly(k) else k
    if k is None or k.op != "field" or k.args[1] != "first" or k.args[0] is not en or en.op != "at": return None
    es, i, so = en.args
    if es.op != "entries" or single_atom(i) is not bvsym(h, "n") or usesbv(es, h) or length(es) is not n: return None
    return tolin(es.args[0])
def faulhaber(n, h, dep):
    if len(dep) != 1 or dep[0][0] is not bvsym(h, "n"): return None
    m = pmin(n)
    if m is None or m < 0: return None
    e = dep[0][1]
    if e == 1: return pscale(pmul(n, psub(n, ONE)), Fraction(1, 2))
    return None
def as_parity(b):
    """if b is +-1 valued, x with b = (-1)^x"""
    if b is ONE: return ZERO
    if constval(b) == -1: return ONE
    cs = c_atoms(b)
    if len(b.args[0]) == 1:
        m, c = b.args[0][0]
        if c in (1, -1) and all(a.op == "par" for a, e in m):
            r = ONE if c == -1 else ZERO
            for a, e in m: r = padd(r, a.args[0])
            return r
        return None
    if not cs or len(cs) > 6: return None
    a = topmost(cs)
    p1, p0 = as_parity(assume(b, a, True)), as_parity(assume(b, a, False))
    if p1 is None or p0 is None: return None
    return padd(p0, pmul(atom(a), psub(p1, p0)))

# ---------------------------------------------------------------- substitution and rebuilding
_REB = {}
def rebuilder(op):
    def d(f): _REB[op] = f; return f
    return d
def rebuild_atom(a, f):
    """rebuild atom a (result is a polynomial)"""
    r = rebuild(a, f)
    return r if ispoly(r) else atom(r)
def mapargs(x, f):
    if isinstance(x, T): return f(x)
    if isinstance(x, tuple): return tuple(mapargs(y, f) for y in x)
    return x
def rebuild(t, f, m=None):
    op = t.op
    if op == "poly":
        r = None
        for mo, c in t.args[0]:
            p = None; keep = []
            for a, e in mo:
                y = m[a] if m is not None and a in m else rebuild_atom(a, f)
                if single_atom(y) is a: keep.append((a, e)); continue
                y = ppow(y, e) if e >= 0 else pinv(ppow(y, -e))
                p = y if p is None else pmul(p, y)
            base = mkpoly({tuple(keep): c}) 
            if p is not None: base = pmul(base, p)
            r = base if r is None else padd(r, base)
        return r if r is not None else ZERO
    if op in BINDERS:
        n, h, b = t.args
        n2 = f(n)
        v = fresh("n", "i"); va = single_atom(v); set_bounds(va, ZERO, psub(n2, ONE))
        b2 = f(subst(b, {bvsym(h, "n"): v}))
        return bind(op, n2, va, b2)
    if op in ("fold", "mu", "lam"):
        return rebuild_multi(t, f)
    if op in ("sym", "bv", "mempty"): return t
    args = tuple(mapargs(x, f) for x in t.args)
    if args == t.args: return t
    g = _REB.get(op)
    return g(*args) if g else raw(op, *args)
_REB.update({
    "le": lambda q, k: le(q, k), "eq0": lambda q: eqr(q, ZERO), "app": lambda n, a, s: app(n, a, s),
    "field": field, "at": at, "upd": upd, "slice": slc, "cat": cat, "el": el, "len": length,
    "mset": mset, "mdel": mdel, "mget": mget, "mhas": lambda m, k, s: mhas(m, k), "entries": entries, "par": par,
    "cmp": CMP, "lin": lin, "linof": tolin, "basis": basis, "rec": lambda ty, b, fs: rec(ty, b, fs),
    "ite": lambda p, a, b: ite(p if ispoly(p) else atom(p), a, b),
})
def mksort(s, L):
    """a sorted list; lists of at most two elements are written out"""
    if s is EMPTY or s.op == "el": return s
    if s.op == "cat" and len(s.args) == 2 and all(p.op == "el" for p in s.args) and len(L.args[0]) == 2:
        x, y = s.args[0].args[0], s.args[1].args[0]
        m = {bvsym(h, so): v for h, so, v in zip(L.args[0], L.args[1], (y, x))}
        return ite(subst(L.args[3][0] if isinstance(L.args[3], tuple) else L.args[3], m), cat(el(y), el(x)), s)
    return raw("sort", s, L)
_REB["sort"] = mksort
def _reb_app(n, a, s):
    g = APP_REBUILD.get(n)
    return g(a, s) if g else app(n, a, s)
APP_REBUILD = {"mod": lambda a, s: mod(*a), "idiv": lambda a, s: idiv(*a), "inv": lambda a, s: pinv(*a),
               "max0": lambda a, s: dom(*a)}
_REB["app"] = _reb_app
def rebuild_multi(t, f):
    """fold/mu/lam: args = (heights, sorts, parts...) ; bound variables heights[k] of sort sorts[k]"""
    hs, ss = t.args[0], t.args[1]
    vs = [fresh(s, "s") for s in ss]
    m = {bvsym(h, s): v for h, s, v in zip(hs, ss, vs)}
    body = f2(t.args[3], lambda z: f(subst(z, m)))
    outer = f2(t.args[2], f)
    return mkmulti(t.op, [single_atom(v) if ispoly(v) else v for v in vs], ss, outer, body, t.args[4:])
def f2(x, f):
    if isinstance(x, T): return f(x)
    if isinstance(x, tuple): return tuple(f2(y, f) for y in x)
    return x
def _mbh(x):
    if isinstance(x, T): return x.bh
    if isinstance(x, tuple): return max([0] + [_mbh(y) for y in x])
    return 0
def order_state(op, vas, ss, outer, body, rest):
    """the order of the state components of a loop is immaterial: choose a canonical one"""
    f = 1 if op == "fold" else 0
    st = vas[f:]; sst = ss[f:]; init = outer[f:]
    steps = body if op == "fold" else body[1]
    own = [x for x in steps]
    col = [hashlib.sha1(b"%s|" % so.encode() + i.dig).digest() for so, i in zip(sst, init)]
    for r in range(2):
        if len(set(col)) == len(col) and r: break
        m = {a: sym("col:" + c.hex()[:20], so) for a, c, so in zip(st, col, sst)}
        for a, so in zip(vas[:f], ss[:f]): m[a] = sym("col:index", so)
        col = [hashlib.sha1(c + subst(b, m).dig).digest() for c, b in zip(col, own)]
    o = sorted(range(len(st)), key=lambda k: (sst[k], col[k]))
    if o == list(range(len(st))): return vas, ss, outer, body, rest
    p = lambda xs: type(xs)(xs[k] for k in o) if isinstance(xs, list) else tuple(xs[k] for k in o)
    k, so = rest
    return vas[:f] + p(st), ss[:f] + p(sst), outer[:f] + p(init), (p(body) if op == "fold" else (body[0], p(body[1]))), (o.index(k), so)
def mkmulti(op, vas, ss, outer, body, rest):
    """generic multi-variable binder; vas: list of sym atoms bound in body"""
    if op == "fold" and ispoly(outer[0]) and constval(outer[0]) is not None and constval(outer[0]) <= 1:
        # no iteration, or a single one
        if constval(outer[0]) <= 0: return outer[1 + rest[0]]
        return subst(body[rest[0]], {va: x for va, x in zip(vas, (ZERO,) + tuple(outer[1:]))})
    if op == "fold" and len(vas) > 2 or op == "mu" and len(vas) > 1: vas, ss, outer, body, rest = order_state(op, list(vas), list(ss), tuple(outer), body, tuple(rest))
    base = _mbh(body)
    hs = tuple(base + 1 + k for k in range(len(vas)))
    m = {va: wrap(bvsym(h, s), s) for va, h, s in zip(vas, hs, ss)}
    b = f2(body, lambda z: subst(z, m))
    t = raw(op, hs, tuple(ss), outer, b, *rest)
    srt = rest[-1] if rest else "s"
    return t if srt == "s" else atom(t)

_subst_memo = {}
def subst(t, m):
    """simultaneous substitution of symbols (sym/bv atoms) by terms"""
    if isinstance(t, tuple): return tuple(subst(x, m) for x in t)
    if not isinstance(t, T): return t
    if not (t.syms & m.keys()): return t
    key = (t, tuple(sorted(((k.dig, v.dig) for k, v in m.items()))), active_key(t), tuple(active_key(v) for v in m.values()) if _active else ())
    r = _subst_memo.get(key)
    if r is None:
        r = _subst(t, m); _subst_memo[key] = r
    return r
def _subst(t, m):
    if t in m: return m[t]
    return rebuild(t, lambda z: subst(z, m), m)

_rep = {}
def replace(t, m):
    """replace atoms / terms by values everywhere (m: term -> value)"""
    if isinstance(t, tuple): return tuple(replace(x, m) for x in t)
    if not isinstance(t, T): return t
    if t in m: return m[t]
    k = (t, tuple(sorted((a.dig, b.dig) for a, b in m.items())), active_key(t))
    r = _rep.get(k)
    if r is None:
        if len(_rep) > 400000: _rep.clear()
        r = rebuild(t, lambda z: replace(z, m), m)
        _rep[k] = r
    return r

def reset():
    """forget memo tables (terms stay interned)"""
    _assume_memo.clear(); _subst_memo.clear()

# ---------------------------------------------------------------- printing
def show(t, d=0):
    if isinstance(t, tuple): return "(" + ", ".join(show(x, d + 1) for x in t) + ")"
    if not isinstance(t, T): return str(t)
    if d > 24: return "…"
    s = lambda x: show(x, d + 1)
    op, a = t.op, t.args
    if op == "poly":
        if not a[0]: return "0"
        out = []
        for m, c in a[0]:
            ms = "*".join(s(x) + ("^%d" % e if e != 1 else "") for x, e in m)
            if not ms: out.append(str(c))
            elif c == 1: out.append(ms)
            elif c == -1: out.append("-" + ms)
            else: out.append("%s*%s" % (c, ms))
        return " + ".join(out).replace("+ -", "- ") if len(out) == 1 else "(" + " + ".join(out).replace("+ -", "- ") + ")"
    if op == "sym": return str(a[0]).split("`")[0]
    if op == "bv": return "i%d" % a[0]
    if op == "le": return "[%s<=%d]" % (s(a[0]), a[1])
    if op == "eq0": return "[%s==0]" % s(a[0])
    if op == "app": return "%s(%s)" % (a[0], ", ".join(s(x) for x in a[1]))
    if op == "field": return "%s.%s" % (s(a[0]), a[1])
    if op == "at": return "%s[%s]" % (s(a[0]), s(a[1]))
    if op == "len": return "|%s|" % s(a[0])
    if op == "el": return "<%s>" % s(a[0])
    if op == "cat":
        out = []; buf = ""
        for p in a:
            v = constval(p.args[0]) if p.op == "el" and ispoly(p.args[0]) else None
            if isinstance(v, int) and 32 <= v < 127: buf += chr(v); continue
            if buf: out.append(repr(buf)); buf = ""
            out.append(s(p))
        if buf: out.append(repr(buf))
        return "{" + " ++ ".join(out) + "}"
    if op in BINDERS: return "%s(i%d<%s: %s)" % (op, a[1], s(a[0]), s(a[2]))
    if op == "ite": return "if %s then %s else %s fi" % (s(a[0]), s(a[1]), s(a[2]))
    if op == "rec": return "%s{%s%s}" % (a[0].split("::")[-1], (s(a[1]) + " with ") if a[1] is not None else "", ", ".join("%s=%s" % (n, s(v)) for n, so, v in a[2]))
    if op == "entries": return "entries(%s)" % s(a[0])
    return "%s(%s)" % (op, ", ".join(s(x) if isinstance(x, (T, tuple)) else str(x) for x in a))

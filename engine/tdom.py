"""Domain T: hash-consed tensor polynomials over exact rationals, in a normal form that is closed under change of units and origin.

A `Poly` is a finite sum of rational coefficients times products of powers of atoms.  Atoms are input entries x[i, j], sums over index
ranges, indicators, and functionals (order statistics, median, MAD, Qn-like scales, arg-sorts, matrix inverse/eigen-decomposition, least
squares ...).  Each functional's constructor applies exactly the laws assumed of it: additive terms that do not depend on the bound index
are pulled out of location functionals and dropped from scale functionals and arg-sorts, positive common factors are pulled out, linear
functionals are split.  Two values computed by two runs of the code are equal when their normal forms are the same object."""
from fractions import Fraction as Fr
import itertools, math

_atoms = {}; _polys = {}; _tab = []

class Atom:
    __slots__ = ("kind", "args", "id", "fv", "h", "pos", "int", "nan", "sz")
    def __repr__(self): return show_atom(self)

class Poly:
    __slots__ = ("t", "id", "fv", "h", "sz")
    def __repr__(self): return show(self)
    def __add__(self, o): return add(self, o)
    def __sub__(self, o): return add(self, scale(o, -1))
    def __mul__(self, o): return mul(self, o)
    def __neg__(self): return scale(self, -1)

E0 = frozenset()

def fvs(x):
    if isinstance(x, (Poly, Atom)): return x.fv
    if isinstance(x, tuple):
        s = E0
        for y in x: s = s | fvs(y)
        return s
    return E0
def height(x):
    if isinstance(x, (Poly, Atom)): return x.h
    if isinstance(x, tuple): return max([height(y) for y in x] or [0])
    return 0
def size(x):
    if isinstance(x, (Poly, Atom)): return x.sz
    if isinstance(x, tuple): return sum(size(y) for y in x)
    return 0
def ids(x):
    if isinstance(x, Poly): return ("P", x.id)
    if isinstance(x, Atom): return ("A", x.id)
    if isinstance(x, tuple): return tuple(ids(y) for y in x)
    return x

BIND = {}      # kind -> number of bound variables (stored in args[0] as the tuple of dims)

def mk(kind, *args, pos=False, integer=False, nan=None):
    k = (kind,) + ids(args)
    a = _atoms.get(k)
    if a is not None:
        if pos and not a.pos: a.pos = True
        return a
    a = Atom(); a.kind = kind; a.args = args; a.id = len(_tab); a.pos = pos; a.int = integer; a.sz = size(args) + (not (kind == "x" and args[0][:5] == "perm:"))     # a rearrangement does not count
    if kind == "v": a.fv = frozenset((args[0],)); a.h = 0; a.nan = False
    else:
        a.fv = fvs(args); a.h = height(args)
        if kind in BINDERS: a.h += 1; a.fv = frozenset(v for v in a.fv if not (isinstance(v, tuple) and v[0] == "b" and v[1] == a.h))
        a.nan = nanable(args) if nan is None else nan
    _atoms[k] = a; _tab.append(a); return a

def nanable(x):
    if isinstance(x, Atom): return x.nan
    if isinstance(x, Poly): return any(_tab[i].nan for m, _ in x.t for i, _ in m)
    if isinstance(x, tuple): return any(nanable(y) for y in x)
    return False

def poly(d):
    t = tuple(sorted((m, c) for m, c in d.items() if c != 0))
    p = _polys.get(t)
    if p is None:
        p = Poly(); p.t = t; p.id = len(_polys); fv = E0; h = 0; sz = 0
        for m, _ in t:
            for i, _ in m:
                a = _tab[i]; sz += a.sz
                if a.fv: fv = fv | a.fv
                if a.h > h: h = a.h
        p.fv = fv; p.h = h; p.sz = sz; _polys[t] = p
    return p

def const(c): return poly({(): Fr(c)}) if c != 0 else ZERO
def of(a, e=1): return poly({((a.id, Fr(e)),): Fr(1)})
def var(name): return of(mk("v", name, integer=True))
def sym(name, *idx, pos=False, integer=False, nan=False): return of(mk("x", name, *idx, pos=pos, integer=integer, nan=nan or nanable(idx)))

BINDERS = {"S", "agg", "ord", "argsort", "rank", "any", "mi", "det", "eigval", "eigvec", "prod", "ols", "matf", "svd", "pairagg", "rankofm", "map", "sort", "cumP"}

def add(p, q):
    if not p.t: return q
    if not q.t: return p
    d = dict(p.t)
    for m, c in q.t: d[m] = d.get(m, 0) + c
    return fix(poly(d))
def addn(ps):
    d = {}
    for p in ps:
        for m, c in p.t: d[m] = d.get(m, 0) + c
    return fix(poly(d))
def scale(p, c):
    return poly({m: k * c for m, k in p.t}) if c else ZERO

IDEM = {"ind", "eq0", "any", "isnan", "bool", "delta"}
_mulc = {}
def mul(p, q):
    if not p.t or not q.t: return ZERO
    if p.id > q.id: p, q = q, p
    k = (p.id, q.id); r = _mulc.get(k)
    if r is not None: return r
    if len(p.t) * len(q.t) > 600:
        if len(p.t) > 12: p = opaque(p)
        if len(q.t) > 12: q = opaque(q)
    d = {}; extra = []
    for m1, c1 in p.t:
        for m2, c2 in q.t:
            m, ex = mmul(m1, m2)
            if m is None: continue
            c = c1 * c2
            if ex is None: d[m] = d.get(m, 0) + c
            else: extra.append(scale(mul(poly({m: Fr(1)}), ex), c))
    r = poly(d)
    for e in extra: r = add(r, e)
    r = fix(r)
    _mulc[k] = r; return r

def mmul(m1, m2):
    """product of two monomials: (monomial, extra factor or None); (None, None) for zero"""
    if not m1: return m2, None
    if not m2: return m1, None
    d = dict(m1)
    for i, e in m2: d[i] = d.get(i, 0) + e
    out = []; ex = None
    for i, e in d.items():
        if e == 0: continue
        a = _tab[i]
        if a.kind in IDEM and e > 1: e = Fr(1)
        if a.kind == "P" and e >= 1 and (e.denominator == 1 or e > 1):
            k = e.numerator // e.denominator; f = power(a.args[0], k); ex = f if ex is None else mul(ex, f); e -= k
            if e == 0: continue
        elif a.kind == "abs" and e >= 2:
            k = (e.numerator // e.denominator) // 2 * 2; f = power(a.args[0], k); ex = f if ex is None else mul(ex, f); e -= k
            if e == 0: continue
        out.append((i, e))
    # complementary indicators
    if len(out) > 1:
        for i, e in out:
            a = _tab[i]
            if a.kind == "ind":
                n = scale(a.args[0], -1); b = _atoms.get(("ind", ("P", n.id)))
                if b is not None and b.id in d and b.id != i: return None, None
    return tuple(sorted(out)), ex

_powc = {}
def power(p, k):
    if k == 0: return ONE
    r = ONE
    for _ in range(k): r = mul(r, p)
    return r

_opq = {}
def opaque(p):
    """a name for a large polynomial: equal polynomials get equal names"""
    return of(mk("def", p, nan=nanable(p)))

def fix(p):
    """cancel numerators against named denominators; indicator complements c*i + c*(1-i) are handled by the polynomial form itself"""
    dens = {i for m, _ in p.t for i, e in m if e < 0 and _tab[i].kind == "P"}
    for i in dens:
        q = _tab[i].args[0]; groups = {}
        for m, c in p.t:
            for j, e in m:
                if j == i and e < 0:
                    groups.setdefault((e,), {})[tuple(x for x in m if x[0] != i)] = c; break
            else: groups.setdefault(None, {})[m] = c
        out = {}; ch = False
        for g, d in groups.items():
            if g is None:
                for m, c in d.items(): out[m] = out.get(m, 0) + c
                continue
            quo, rem = divide(d, q)
            if quo: ch = True
            for m, c in rem.items():
                mm, _ = mmul(m, ((i, g[0]),)); out[mm] = out.get(mm, 0) + c
            for m, c in quo.items():
                mm = mmul(m, ((i, g[0] + 1),))[0] if g[0] + 1 != 0 else m
                out[mm] = out.get(mm, 0) + c
        if ch: return fix(poly(out))
    return p

def mdiv(m, n):
    d = dict(m)
    for i, e in n:
        if d.get(i, 0) < e: return None
        d[i] = d.get(i, 0) - e
        if d[i] == 0: del d[i]
    return tuple(sorted(d.items()))
def lexkey(m): return tuple((-i, e) for i, e in m)
def lead(ms):
    """lexicographic order on exponent vectors (atom with the smallest id first)"""
    best = None
    def cmp_gt(a, b):
        a, b = dict(a), dict(b)
        for i in sorted(set(a) | set(b)):
            x, y = a.get(i, 0), b.get(i, 0)
            if x != y: return x > y
        return False
    for m in ms:
        if best is None or cmp_gt(m, best): best = m
    return best
def divide(d, q):
    """division of the numerator by q; only an exact quotient of a group of terms is taken out"""
    qt = dict(q.t); lq = lead(qt); rem = dict(d); quo = {}
    if any(m in () for m in ()): return {}, rem
    cand = [m for m in rem if mdiv(m, lq) is not None]
    la = [i for i, _ in lq]
    for m in sorted(cand, key=lambda m: ([-dict(m).get(i, 0) for i in la], m)):
        if m not in rem: continue
        k = mdiv(m, lq); c = rem[m] / qt[lq]; new = dict(rem); ok = True
        for n, cc in qt.items():
            mm, ex = mmul(n, k)
            if ex is not None or mm is None: ok = False; break
            v = new.get(mm, 0) - c * cc
            if v == 0: new.pop(mm, None)
            else: new[mm] = v
        if ok and len(new) <= len(rem) - len(qt) + 1 and len(new) < len(rem): rem = new; quo[k] = quo.get(k, 0) + c
    return quo, rem

ZERO = poly({}); ONE = poly({(): Fr(1)})

def isconst(p): return not p.t or (len(p.t) == 1 and not p.t[0][0])
def cval(p): return p.t[0][1] if p.t else Fr(0)

# ------------------------------------------------------------ sign knowledge
LOW = {}        # symbol atom id -> lower bound (integers such as n, p)
def setlow(p, lo):
    (m, c), = p.t; LOW[m[0][0]] = lo
def atom_pos(a):
    if a.pos: return True
    if a.kind in ("exp",): return True
    if a.kind == "P": return positive(a.args[0])
    if a.id in LOW: return LOW[a.id] > 0
    if a.kind == "abs": return False
    return False
def atom_nonneg(a):
    return atom_pos(a) or a.kind in ("abs", "ind", "eq0", "any", "isnan", "pos", "bool", "rank", "v", "delta", "det2", "argmax", "argmin") or (a.kind == "agg" and a.args[1] in NONNEG) or (a.kind == "S" and nonneg(a.args[1])) or a.id in LOW and LOW[a.id] >= 0 or a.kind == "P" and (nonneg(a.args[0]))
NONNEG = {"mad", "std", "scale"}
def mono_sign(m):
    """+2 positive, +1 nonnegative, 0 unknown"""
    s = 2
    for i, e in m:
        a = _tab[i]
        if atom_pos(a): continue
        if e.denominator == 1 and e % 2 == 0: s = min(s, 1)
        elif atom_nonneg(a): s = min(s, 1)
        elif e.denominator != 1: s = min(s, 1)
        else: return 0
    return s
def shiftlow(p):
    """rewrite in terms of symbols reduced by their lower bounds"""
    out = ZERO
    for m, c in p.t:
        t = const(c)
        for i, e in m:
            a = _tab[i]
            if i in LOW and e.denominator == 1 and e > 0: t = mul(t, power(add(of(mk("low", a, pos=False)), const(LOW[i])), int(e)))
            else: t = mul(t, poly({((i, e),): Fr(1)}))
        out = add(out, t)
    return out
def nonneg(p, strict=False):
    if not p.t: return not strict
    for m, c in p.t:
        if c < 0 and len(m) == 1 and m[0][1] == 1 and _tab[m[0][0]].kind == "pos":       # q - c max(a, 0) is the smaller of q and q - c a
            q = p - poly({m: c})
            if nonneg(q, strict) and nonneg(q + scale(_tab[m[0][0]].args[0], c), strict): return True
    if any(i in LOW for m, _ in p.t for i, _ in m) and len(p.t) > 1: p = shiftlow(p)
    st = False
    for m, c in p.t:
        s = mono_sign2(m)
        if s == 0 or c < 0: return False
        if s == 2: st = True
    return st or not strict
def mono_sign2(m):
    s = 2
    for i, e in m:
        a = _tab[i]
        if a.kind == "low": s = min(s, 1); continue
        r = mono_sign(((i, e),))
        s = min(s, r)
    return s
def positive(p): return nonneg(p, True)

# ------------------------------------------------------------ content
def common(p):
    """the common monomial factor of all terms (minimal exponents)"""
    it = iter(p.t); c = dict(next(it)[0])
    for m, _ in it:
        d = dict(m)
        c = {i: min(e, d[i]) for i, e in c.items() if i in d and (e > 0) == (d[i] > 0)}
    # atoms absent from a term but with negative exponent elsewhere
    negs = {}
    for m, _ in p.t:
        for i, e in m:
            if e < 0: negs[i] = min(negs.get(i, 0), e)
    for i, e in negs.items():
        c[i] = min(c.get(i, 0), e)
    return {i: e for i, e in c.items() if e != 0}
def content(p, ok=lambda a: True, sign=False, coeff=True):
    """p = f * q with f a positive constant times powers of atoms accepted by ok (and positive unless sign); returns (f, q)"""
    if not p.t: return ONE, ZERO
    c = {i: e for i, e in common(p).items() if ok(_tab[i]) and (sign or atom_pos(_tab[i]) or (e.denominator == 1 and e % 2 == 0 and False))}
    k = Fr(1)
    if coeff:
        k = abs(p.t[0][1]) if not sign else p.t[0][1]
    f = poly({tuple(sorted(c.items())): k})
    inv = tuple(sorted((i, -e) for i, e in c.items()))
    d = {}
    for m, cc in p.t:
        mm, ex = mmul(m, inv)
        if ex is not None:
            if any(_tab[i].kind == "P" for i in c): return content(p, lambda a: a.kind != "P" and ok(a), sign, coeff)
            return (const(k), scale(p, 1 / k))
        d[mm] = cc / k
    # cancelling may have reordered the terms: renormalise the leading coefficient
    q = poly(d)
    if coeff:
        k2 = abs(q.t[0][1]) if not sign else q.t[0][1]
        if k2 != 1: f = scale(f, k2); q = scale(q, 1 / k2)
    return f, q

# ------------------------------------------------------------ elementary functions
def pw(p, e):
    e = Fr(e)
    if e == 0: return ONE
    if e.denominator == 1 and e > 0 and (len(p.t) < 40): return power(p, int(e))
    if not p.t: return ZERO if e > 0 else of(mk("inf"))
    if isconst(p):
        c = cval(p)
        if e.denominator == 1: return const(Fr(c) ** int(e))
        if c > 0:
            r = Fr(math.isqrt(c.numerator), 1), Fr(math.isqrt(c.denominator), 1)
            if e.denominator == 2 and r[0] ** 2 == c.numerator and r[1] ** 2 == c.denominator: return const((r[0] / r[1]) ** e.numerator)
        return of(mk("P", p), e)
    if len(p.t) == 1:
        m, c = p.t[0]
        if e.denominator == 1:
            r = const(c ** int(e))
            return mul(r, poly({tuple(sorted((i, x * e) for i, x in m)): Fr(1)})) if all(_tab[i].kind != "P" or (x * e) < 1 for i, x in m) else mul(r, prodp([pw_atom(i, x * e) for i, x in m]))
        out = ONE; rest = []
        for i, x in m:
            a = _tab[i]
            if atom_nonneg(a): out = mul(out, pw_atom(i, x * e))
            elif x.denominator == 1 and x % 2 == 0: out = mul(out, pw(absp(of(a)), x * e))
            else: rest.append((i, x))
        if not rest: return mul(out, pw(const(c), e)) if c > 0 else mul(out, of(mk("P", const(c)), e))
        if c > 0: return mul(mul(out, pw(const(c), e)), of(mk("P", poly({tuple(rest): Fr(1)})), e))
        return mul(mul(out, pw(const(-c), e)), of(mk("P", poly({tuple(rest): Fr(-1)})), e))
    if e.denominator == 1:
        f, q = content(p, sign=True)
        if len(q.t) == 1: return mul(pw(f, e), pw(q, e))
        return mul(pw(f, e), of(mk("P", q), e))
    f, q = content(p)
    return mul(pw(f, e), of(mk("P", q), e))
def pw_atom(i, e):
    a = _tab[i]
    if a.kind == "P" and e >= 1 and e.denominator == 1: return power(a.args[0], int(e))
    if a.kind in IDEM and e > 0: e = Fr(1)
    return poly({((i, e),): Fr(1)})
def prodp(ps):
    r = ONE
    for p in ps: r = mul(r, p)
    return r
def inv(p): return pw(p, -1)
def absp(p):
    if not p.t: return ZERO
    if nonneg(p): return p
    if nonneg(scale(p, -1)): return scale(p, -1)
    f, q = content(p, sign=True)
    fa = ONE
    for m, c in f.t:
        fa = const(abs(c))
        for i, e in m:
            a = _tab[i]
            if atom_nonneg(a) or (e.denominator == 1 and e % 2 == 0): fa = mul(fa, pw_atom(i, e))
            elif a.kind == "x" or True: fa = mul(fa, of(mk("abs", of(a)), e))
    if q is ONE or q.id == ONE.id: return fa
    if nonneg(q): return mul(fa, q)
    return mul(fa, of(mk("abs", q)))
def posp(p):
    """max(p, 0)"""
    if nonneg(p): return p
    if nonneg(scale(p, -1)): return ZERO
    f, q = content(p)
    if q.t and q.t[0][1] < 0: return mul(f, add(of(mk("pos", scale(q, -1))), q))   # max(-r,0) = max(r,0) - r
    return mul(f, of(mk("pos", q)))
def maxp(p, q): return p if p is q else add(q, posp(p - q))
def minp(p, q): return p if p is q else p - posp(p - q)
def gt0(p):
    """[p > 0]"""
    if isconst(p): return ONE if cval(p) > 0 else ZERO
    if positive(p): return ONE
    if nonneg(scale(p, -1)): return ZERO
    f, q = content(p)
    if len(q.t) == 1:
        m, c = q.t[0]; m2 = []
        if c > 0 and all(_tab[i].kind in IDEM for i, _ in m): return poly({m: Fr(1)})
    return of(mk("ind", q, nan=False))
def ge0(p): return ONE - gt0(scale(p, -1))
def eq0(p):
    if isconst(p): return ONE if cval(p) == 0 else ZERO
    if positive(p) or positive(scale(p, -1)): return ZERO
    f, q = content(p, ok=lambda a: atom_pos(a), sign=False)
    if q.t[0][1] < 0: q = scale(q, -1)
    if len(q.t) == 1 and all(_tab[i].kind in IDEM for i, _ in q.t[0][0]): return ONE - poly({q.t[0][0]: Fr(1)})
    if len(q.t) == 2 and () in dict(q.t):      # 1 - indicator
        (m1, c1), (m2, c2) = q.t
        if m1 == () and c1 == -c2 and all(_tab[i].kind in IDEM for i, _ in m2): return poly({m2: Fr(1)})
    return of(mk("eq0", q, nan=False))
def notp(p): return ONE - p
def orp(p, q): return notp(mul(notp(p), notp(q)))
def where(c, a, b): return a if a is b else add(mul(c, a), mul(notp(c), b))
def signp(p):
    if not p.t: return ZERO
    if positive(p): return ONE
    f, q = content(p)
    s = 1
    if q.t[0][1] < 0: q = scale(q, -1); s = -1
    return scale(of(mk("sign", q)), s)
def fun(name, *args, pos=False, nan=None): return of(mk("f", name, *args, pos=pos, nan=nan))
def logp(p):
    if isconst(p) and cval(p) == 1: return ZERO
    f, q = content(p)
    out = ZERO
    for m, c in f.t:
        if c != 1: out = add(out, fun("log", const(c)))
        for i, e in m: out = add(out, scale(fun("log", of(_tab[i])), e))
    if q.id != ONE.id: out = add(out, fun("log", q))
    return out
def isnanp(p):
    """a sum is missing when one of the terms that may be missing is: finite terms and nonzero factors are dropped"""
    if not nanable(p): return ZERO
    terms = [(m, c) for m, c in p.t if any(_tab[i].nan for i, _ in m)]
    q = poly({m: Fr(1) for m, c in terms})
    q = poly({tuple((i, e) for i, e in m if _tab[i].nan or _tab[i].kind in IDEM): Fr(1) for m, c in q.t})
    if all(_tab[i].kind not in IDEM for m, _ in q.t for i, _ in m):
        leaves = set()
        def go(x):
            if isinstance(x, Atom):
                if not x.nan: return
                if x.kind == "x": leaves.add(x.id); return
                if x.kind in BINDERS or x.kind == "def": leaves.add(x.id); return
                go(x.args)
            elif isinstance(x, Poly):
                for m, _ in x.t:
                    for i, _ in m: go(_tab[i])
            elif isinstance(x, tuple):
                for y in x: go(y)
        go(q)
        r = ZERO
        for i in sorted(leaves): r = orp(r, of(mk("isnan", of(_tab[i]), nan=False)))
        return r
    return of(mk("isnan", q, nan=False))

# ------------------------------------------------------------ substitution
_uid = [0]
def fresh(nm="t"): _uid[0] += 1; return ("t", nm, _uid[0])

def subst(p, s, memo=None):
    """s: variable name -> Poly"""
    if not s: return p
    s = {k: v for k, v in s.items() if k in p.fv}
    if not s: return p
    return _sub(p, s, {} if memo is None else memo)
def _sub(p, s, memo):
    if not any(v in p.fv for v in s): return p
    r = memo.get(p.id)
    if r is not None: return r
    out = []
    for m, c in p.t:
        t = const(c); keep = []
        for i, e in m:
            a = _tab[i]
            if any(v in a.fv for v in s):
                b = suba(a, s, memo); t = mul(t, b if e == 1 else pw(b, e))
            else: keep.append((i, e))
        if keep: t = mul(t, poly({tuple(keep): Fr(1)}))
        out.append(t)
    r = addn(out); memo[p.id] = r; return r
def suba(a, s, memo):
    k = ("a", a.id); r = memo.get(k)
    if r is not None: return r
    if a.kind == "v": r = s.get(a.args[0]) or of(a)
    elif a.kind in BINDERS: r = REBUILD[a.kind](a, s)
    else: r = ATOMS[a.kind](*[subarg(x, s, memo) for x in a.args], **({} if a.kind != "x" else dict(old=a)))
    memo[k] = r; return r
def subarg(x, s, memo):
    if isinstance(x, Poly): return _sub(x, s, memo)
    if isinstance(x, Atom): return suba(x, s, memo)
    if isinstance(x, tuple): return tuple(subarg(y, s, memo) for y in x)
    return x
def open_(a, nb, s):
    """the bound variables of binder a renamed to fresh ones: (fresh names, substitution)"""
    vs = [fresh() for _ in range(nb)]
    d = {("b", a.h, k): var(v) for k, v in enumerate(vs)}
    return vs, dict(s, **d) if False else {**s, **d}

def bind(vs, *parts):
    """rename the free variables vs to the bound names for a binder over `parts`"""
    h = 1 + max([height(x) for x in parts] or [0])
    s = {v: var(("b", h, k)) for k, v in enumerate(vs)}
    return tuple(subarg_top(x, s) for x in parts)
def subarg_top(x, s):
    if isinstance(x, Poly): return subst(x, s)
    if isinstance(x, tuple): return tuple(subarg_top(y, s) for y in x)
    return x

# ------------------------------------------------------------ sums
def deps(a, v): return v in a.fv
PERMS = {"argsort", "perm", "rngperm"}

def sum_(v, dim, body):
    """sum of body over v = 0..dim-1"""
    if dim is ONE: return subst(body, {v: ZERO})
    out = []
    for m, c in body.t:
        ins = [(i, e) for i, e in m if v in _tab[i].fv]; outs = [(i, e) for i, e in m if v not in _tab[i].fv]
        o = poly({tuple(outs): c})
        if not ins: out.append(mul(o, dim)); continue
        out.append(mul(o, sum_mono(v, dim, ins)))
    return addn(out)
def sum_mono(v, dim, ins):
    # a product with a named large polynomial is kept; delta(v, e) selects
    for i, e in ins:
        a = _tab[i]
        if a.kind == "delta":
            x, y = a.args
            other = None
            if x.id == var(v).id and v not in y.fv: other = y
            elif y.id == var(v).id and v not in x.fv: other = x
            if other is not None:
                rest = [z for z in ins if z[0] != i]
                return subst(poly({tuple(rest): Fr(1)}), {v: other})
    vs = [v]; dims = [dim]; fac = []
    for i, e in ins:
        a = _tab[i]
        if a.kind == "S" and e == 1:
            ws, s = open_(a, len(a.args[0]), {}); inner = subst_mono(a.args[1], s)
            vs += ws; dims += list(a.args[0]); fac.append(inner)
        elif a.kind == "S" and e.denominator == 1 and e > 1 and e <= 3:
            for _ in range(int(e)):
                ws, s = open_(a, len(a.args[0]), {}); inner = subst_mono(a.args[1], s)
                vs += ws; dims += list(a.args[0]); fac.append(inner)
        else: fac.append(poly({((i, e),): Fr(1)}))
    p = prodp(fac)
    return multisum(vs, dims, p)
def subst_mono(p, s): return subst(p, s)
def multisum(vs, dims, p):
    """sum over several variables of a polynomial: contraction rules, then canonical names"""
    out = []
    for m, c in p.t: out.append(scale(ms_mono(list(vs), list(dims), m), c))
    return addn(out)
def ms_mono(vs, dims, m):
    # factors that do not depend on any bound variable are pulled out, variables that do not occur give a factor
    outs = [(i, e) for i, e in m if not any(v in _tab[i].fv for v in vs)]; m = [(i, e) for i, e in m if any(v in _tab[i].fv for v in vs)]
    o = poly({tuple(outs): Fr(1)})
    for k in range(len(vs) - 1, -1, -1):
        if not any(vs[k] in _tab[i].fv for i, _ in m): o = mul(o, dims[k]); del vs[k], dims[k]
    if not vs: return mul(o, poly({tuple(m): Fr(1)}))
    for rule in CONTRACT:
        r = rule(vs, dims, m)
        if r is not None: return mul(o, r)
    # independent groups
    groups = []
    for i, e in m:
        fv = {v for v in vs if v in _tab[i].fv}; g = [fv, [(i, e)]]
        new = []
        for h in groups:
            if h[0] & g[0]: g[0] |= h[0]; g[1] += h[1]
            else: new.append(h)
        groups = new + [g]
    if len(groups) > 1:
        r = o
        for fv, fs in groups:
            ks = [k for k, v in enumerate(vs) if v in fv]
            r = mul(r, ms_mono([vs[k] for k in ks], [dims[k] for k in ks], tuple(sorted(fs))))
        return r
    return mul(o, canon_S(vs, dims, tuple(sorted(m))))
def reperm(vs, m):
    """a variable that occurs only inside one permutation is replaced by the permuted one"""
    return m
def canon_S(vs, dims, m):
    p = poly({m: Fr(1)})
    for k, v in enumerate(vs):
        p2 = deperm(p, v, dims[k])
        if p2 is not None: p = p2
    h = 1 + p.h
    n = len(vs)
    if n == 1: order = [(0,)]
    else:
        star, q = var(("star",)), var(("q",))
        sig = [((dims[k].id,), subst(p, {v: (star if v == vs[k] else q) for v in vs}).id) for k in range(n)]
        idx = sorted(range(n), key=lambda k: sig[k])
        cl = [list(g) for _, g in itertools.groupby(idx, key=lambda k: sig[k])]
        order = [sum(x, ()) for x in itertools.product(*[list(itertools.permutations(g)) for g in cl])] if math.prod(math.factorial(len(g)) for g in cl) <= 720 else [tuple(idx)]
    best = None
    for o in order:
        s = {vs[k]: var(("b", h, j)) for j, k in enumerate(o)}
        q = subst(p, s)
        cand = (q.id, tuple(dims[k] for k in o), q)
        if best is None or (tuple(d.id for d in cand[1]), cand[0]) < (tuple(d.id for d in best[1]), best[0]): best = cand
    q = best[2]
    if len(q.t) != 1: return multi_wrap(best[1], q)
    (mm, c), = q.t
    return scale(of(mk("S", best[1], poly({mm: Fr(1)}))), c)
def multi_wrap(dims, q): return of(mk("S", dims, q))
def deperm(p, v, dim=None):
    """all occurrences of v in p are inside applications perm(v) of one permutation of the index range: replace perm(v) by v"""
    found = {}
    def scan(x):
        if isinstance(x, Atom):
            if v not in x.fv: return
            if x.kind == "x" and x.args and isinstance(x.args[0], str) and x.args[0].startswith("perm:") and x.args[1].id == var(v).id: found[x.id] = x; return
            if x.kind == "argsort" and dim is not None and x.args[0][0] is dim and v not in x.args[1].fv and x.args[2] in (var(v), dim - ONE - var(v)): found[x.id] = x; return     # an order of the whole range
            if x.kind == "v": found[None] = x; return
            scan(x.args)
        elif isinstance(x, Poly):
            for m, _ in x.t:
                for i, _ in m: scan(_tab[i])
        elif isinstance(x, tuple):
            for y in x: scan(y)
    scan(p)
    if len(found) != 1 or None in found: return None
    a, = found.values()
    return replace_atom(p, a, var(v))
def replace_atom(p, a, by, memo=None):
    """replace every occurrence of atom a (free)"""
    memo = {} if memo is None else memo
    r = memo.get(p.id)
    if r is not None: return r
    out = []
    for m, c in p.t:
        t = const(c)
        for i, e in m:
            b = _tab[i]
            if b is a: t = mul(t, pw(by, e) if e != 1 else by)
            elif b.fv >= a.fv and contains(b, a): x = rebuild_with(b, lambda q: replace_atom(q, a, by, memo)); t = mul(t, pw(x, e) if e != 1 else x)
            else: t = mul(t, poly({((i, e),): Fr(1)}))
        out.append(t)
    r = addn(out); memo[p.id] = r; return r
def contains(b, a):
    if b is a: return True
    def go(x):
        if isinstance(x, Atom): return x is a or go(x.args)
        if isinstance(x, Poly): return any(go(_tab[i]) for m, _ in x.t for i, _ in m)
        if isinstance(x, tuple): return any(go(y) for y in x)
        return False
    return go(b.args)
def rebuild_with(b, f):
    def go(x):
        if isinstance(x, Poly): return f(x)
        if isinstance(x, tuple): return tuple(go(y) for y in x)
        return x
    if b.kind in BINDERS: return REBUILD[b.kind](b, {}, go)
    return ATOMS[b.kind](*[go(x) for x in b.args], **({} if b.kind != "x" else dict(old=b)))
CONTRACT = []

# ------------------------------------------------------------ functionals over one index
LOCF = {"median", "mean_", "quantile", "min", "max", "nanmedian", "loc"}
def agg(name, v, dim, body, extra=(), equiv="loc", odd=False, cond=ONE, vs=None, dims=None):
    """a functional over the values of body for v in the range (those with cond, an indicator).
    equiv: 'loc' f(a x + b) = a f(x) + b, 'scale' f(a x + b) = a f(x), 'inv' f(a x + b) = f(x), 'pos' f(a x) = a f(x), for a > 0; None: no law;
    odd: f(-x) = -f(x) ('loc') or f(-x) = f(x) ('scale')"""
    if equiv in ("loc", "scale", "inv"):
        dep = {m: c for m, c in body.t if any(v in _tab[i].fv for i, _ in m)}
        ind = {m: c for m, c in body.t if m not in dep}
        B = poly(ind) if equiv == "loc" else ZERO; body2 = poly(dep)
        if not body2.t and equiv in ("loc", "scale"): return B
    else: B = ZERO; body2 = body
    f = ONE
    if equiv in ("loc", "scale", "pos", "inv") and body2.t:
        f, body2 = content(body2, ok=lambda a: v not in a.fv)
        if odd and body2.t[0][1] < 0:
            body2 = scale(body2, -1)
            if equiv == "loc": f = scale(f, -1)
    if cond is ONE and dim is not None:
        q = deperm(body2, v)
        if q is not None: body2 = q
    elif cond is not ONE:
        q = deperm(mul(body2, of(mk("tup", cond))), v)
        if q is not None:
            # both parts were permuted in the same way
            t = [(m, c) for m, c in q.t]; b2 = {}; cc = None
            for m, c in t:
                k = tuple(x for x in m if _tab[x[0]].kind != "tup"); b2[k] = c
                for x in m:
                    if _tab[x[0]].kind == "tup": cc = _tab[x[0]].args[0]
            body2 = poly(b2); cond = cc if cc is not None else cond
    d, b, c, ex = bind([v], dim, body2, cond, tuple(extra))
    a = mk("agg", (d,), name, b, c, ex, equiv, odd)
    r = of(a)
    if equiv == "inv": return r
    return add(mul(f, r), B)
def _re_agg(a, s, go=None):
    (dims, name, body, cond, extra, equiv, odd) = a.args
    vs, ss = open_(a, 1, s); g = go or (lambda x: x)
    return agg(name, vs[0], subst(g(dims[0]), ss), subst(g(body), ss), tuple(subarg_top(g(x), ss) for x in extra), equiv, odd, subst(g(cond), ss))

def anyp(v, dim, body):
    """[some v has body = 1]"""
    if not body.t: return ZERO
    if v not in body.fv: return body
    if len(body.t) == 1 and body.t[0][1] == 1:
        m = body.t[0][0]; outs = tuple((i, e) for i, e in m if v not in _tab[i].fv)
        if outs: return mul(poly({outs: Fr(1)}), anyp(v, dim, poly({tuple((i, e) for i, e in m if v in _tab[i].fv): Fr(1)})))
    q = deperm(body, v)
    if q is not None: body = q
    d, b = bind([v], dim, body)
    return of(mk("any", (d,), b, nan=False))
def _re_any(a, s, go=None):
    vs, ss = open_(a, 1, s); g = go or (lambda x: x); return anyp(vs[0], subst(g(a.args[0][0]), ss), subst(g(a.args[1]), ss))

def ordstat(v, dim, body, k, cond=ONE):
    """k-th smallest (from 0) of the values of body"""
    dep = {m: c for m, c in body.t if any(v in _tab[i].fv for i, _ in m)}; B = poly({m: c for m, c in body.t if m not in dep})
    if not dep: return B
    f, q = content(poly(dep), ok=lambda a: v not in a.fv)
    if q.t[0][1] < 0 and cond is ONE:   # the k-th smallest of -x is minus the (n-1-k)-th smallest of x
        return add(scale(mul(f, ordstat(v, dim, scale(q, -1), dim - ONE - k)), -1), B)
    if cond is ONE:
        r = deperm(q, v)
        if r is not None: q = r
    d, b, c = bind([v], dim, q, cond)
    return add(mul(f, of(mk("ord", (d,), b, c, k))), B)
def _re_ord(a, s, go=None):
    vs, ss = open_(a, 1, s); g = go or (lambda x: x); (dims, b, c, k) = a.args
    return ordstat(vs[0], subst(g(dims[0]), ss), subst(g(b), ss), subst(g(k), ss), subst(g(c), ss))
def argsort(v, dim, body, k, kind="argsort"):
    """the k-th entry of argsort; positive factors and common shifts do not matter. kind 'rank': position of k in the order"""
    dep = poly({m: c for m, c in body.t if any(v in _tab[i].fv for i, _ in m)})
    f, q = content(dep, ok=lambda a: v not in a.fv)
    d, b = bind([v], dim, q)
    return of(mk(kind, (d,), b, k, integer=True, nan=False))
def _re_argsort(a, s, go=None):
    vs, ss = open_(a, 1, s); g = go or (lambda x: x); (dims, b, k) = a.args
    return argsort(vs[0], subst(g(dims[0]), ss), subst(g(b), ss), subst(g(k), ss), a.kind)

# ------------------------------------------------------------ matrices
def split_ij(p, i, j):
    """p(i,j) = f0 * fi(i) * fj(j) * q(i,j), with monomial factors (of any sign)"""
    if not p.t: return ONE, ONE, ONE, p
    p = dsplit(p, i, j); c = common(p); f0, fi, fj = {}, {}, {}
    for k, e in c.items():
        fv = _tab[k].fv
        if i in fv and j in fv: continue
        if not (atom_pos(_tab[k])): continue
        (fi if i in fv else fj if j in fv else f0)[k] = e
    invm = tuple(sorted([(k, -e) for d in (f0, fi, fj) for k, e in d.items()]))
    d = {}
    for m, cc in p.t:
        mm, ex = mmul(m, invm)
        if ex is not None: return ONE, ONE, ONE, p
        d[mm] = cc
    q = poly(d); lc = abs(q.t[0][1])
    P = lambda d: poly({tuple(sorted(d.items())): Fr(1)})
    return scale(P(f0), lc), P(fi), P(fj), scale(q, 1 / lc)
def dsplit(p, i, j):
    """on the diagonal i = j, even powers are shared between i and j"""
    vi, vj = var(i), var(j); out = []; ch = False
    for m, c in p.t:
        if any(_tab[k].kind == "delta" and {_tab[k].args[0].id, _tab[k].args[1].id} == {vi.id, vj.id} for k, _ in m):
            ch = True; dl = tuple(z for z in m if _tab[z[0]].kind == "delta" and i in _tab[z[0]].fv and j in _tab[z[0]].fv)
            x = subst(poly({tuple(z for z in m if z not in dl): c}), {j: vi})
            for mm, cc in x.t:
                y = const(cc)
                for kk, ee in mm:
                    if i in _tab[kk].fv and ee % 2 == 0: h = poly({((kk, ee / 2),): Fr(1)}); y = mul(y, mul(h, subst(h, {i: vj})))
                    else: y = mul(y, poly({((kk, ee),): Fr(1)}))
                out.append(mul(poly({dl: Fr(1)}), y))
        else: out.append(poly({m: c}))
    return addn(out) if ch else p
def dnorm(p):
    """delta(x, y) * f(y) = delta(x, y) * f(x)"""
    out = []; ch = False
    for m, c in p.t:
        q = poly({m: c})
        for k, e in m:
            a = _tab[k]
            if a.kind != "delta": continue
            for x, y in (a.args, a.args[::-1]):
                if len(y.t) == 1 and len(y.t[0][0]) == 1 and y.t[0][1] == 1 and y.t[0][0][0][1] == 1 and _tab[y.t[0][0][0][0]].kind == "v":
                    v = _tab[y.t[0][0][0][0]].args[0]
                    if v in x.fv: continue
                    rest = poly({tuple(z for z in m if z[0] != k): c})
                    if v in rest.fv: q = mul(poly({((k, e),): Fr(1)}), subst(rest, {v: x})); ch = True
                    break
        out.append(q)
    return addn(out) if ch else p
def at2(p, i, j, a, b): return subst(p, {i: a, j: b})
def symmetric(p, i, j):
    t = fresh(); return subst(subst(subst(p, {i: var(t)}), {j: var(i)}), {t: var(j)}) is p
def isdiag(p, i, j):
    """p(i,j) = delta(i,j) * d(i)?"""
    dl = None
    out = {}
    for m, c in p.t:
        ds = [k for k, e in m if _tab[k].kind == "delta" and {x.id for x in _tab[k].args} == {var(i).id, var(j).id}]
        if not ds: return None
        out[tuple(x for x in m if x[0] != ds[0])] = c
    return subst(poly(out), {j: var(i)})
def delta(x, y):
    if x is y: return ONE
    if positive(x - y) or positive(y - x): return ZERO
    if isinstance(x, Poly) and len(x.t) == 1 and len(y.t) == 1:
        (m1, c1), (m2, c2) = x.t[0], y.t[0]
        if c1 == c2 == 1 and len(m1) == len(m2) == 1:
            a, b = _tab[m1[0][0]], _tab[m2[0][0]]
            # permutations are injective
            if a.kind == b.kind == "argsort" and a.args[:2] == b.args[:2]: return delta(a.args[2], b.args[2])
            if a.kind == b.kind == "x" and a.args[0] == b.args[0] and str(a.args[0]).startswith("perm:"): return delta(a.args[1], b.args[1])
    z, o = x - y, y - x
    if len(z.t) == 2 and (len(x.t) > 1 or len(y.t) > 1):        # what both have in common does not count
        (m1, c1), (m2, c2) = z.t
        if c1 == -c2 and abs(c1) == 1: return delta(poly({m1: Fr(1)}), poly({m2: Fr(1)}))
    if z.id > o.id: x, y = y, x
    if x.id > y.id: x, y = y, x
    return of(mk("delta", x, y, nan=False))
def matinv(i, j, dim, body, a, b, name="inv"):
    """entry (a, b) of the inverse of the dim x dim matrix body(i, j)"""
    dg = isdiag(body, i, j)
    if dg is not None: return mul(delta(a, b), inv(subst(dg, {i: a})))
    f0, fi, fj, q = split_ij(body, i, j)
    if name == "pinv" : fi2, fj2, q = ONE, ONE, body; f0, q = content(body, ok=lambda x: i not in x.fv and j not in x.fv); fi = fj = ONE
    sc = mul(inv(f0), mul(inv(subst(fi, {i: b})), inv(subst(fj, {j: a}))))
    if symmetric(q, i, j) and a.id > b.id: a, b = b, a
    d, bb = bind([i, j], dim, q)
    return mul(sc, of(mk("mi", (d,), bb, a, b, name)))
def _re_mi(a, s, go=None):
    vs, ss = open_(a, 2, s); g = go or (lambda x: x); (dims, b, x, y, name) = a.args
    return matinv(vs[0], vs[1], subst(g(dims[0]), ss), subst(g(b), ss), subst(g(x), ss), subst(g(y), ss), name)
def det(i, j, dim, body, name="det"):
    f0, fi, fj, q = split_ij(body, i, j)
    r = ONE
    if f0.id != ONE.id: r = mul(r, fun("pow", f0, dim, pos=positive(f0)))
    for f, v in ((fi, i), (fj, j)):
        if f.id != ONE.id: d, b = bind([v], dim, f); r = mul(r, of(mk("prod", (d,), b, pos=positive(f))))
    d, b = bind([i, j], dim, q)
    return mul(r, of(mk("det", (d,), b, name)))
def _re_det(a, s, go=None):
    vs, ss = open_(a, 2, s); g = go or (lambda x: x); (dims, b, name) = a.args
    return det(vs[0], vs[1], subst(g(dims[0]), ss), subst(g(b), ss), name)
def _re_prod(a, s, go=None):
    vs, ss = open_(a, 1, s); g = go or (lambda x: x); (dims, b) = a.args; d, bb = bind([vs[0]], subst(g(dims[0]), ss), subst(g(b), ss)); return of(mk("prod", (d,), bb, pos=a.pos))
def eig(i, j, dim, body, kind, a, k):
    """eigval: k-th eigenvalue in increasing order; eigvec: coordinate a of the k-th eigenvector"""
    f, q = content(body, ok=lambda x: i not in x.fv and j not in x.fv)
    d, b = bind([i, j], dim, q)
    if kind == "eigval": return mul(f, of(mk("eigval", (d,), b, k)))
    return of(mk("eigvec", (d,), b, a, k))
def _re_eigval(a, s, go=None):
    vs, ss = open_(a, 2, s); g = go or (lambda x: x); (dims, b, k) = a.args
    return eig(vs[0], vs[1], subst(g(dims[0]), ss), subst(g(b), ss), "eigval", None, subst(g(k), ss))
def _re_eigvec(a, s, go=None):
    vs, ss = open_(a, 2, s); g = go or (lambda x: x); (dims, b, x, k) = a.args
    return eig(vs[0], vs[1], subst(g(dims[0]), ss), subst(g(b), ss), "eigvec", subst(g(x), ss), subst(g(k), ss))
def matf(name, vs, dims, bodies, idx, laws=()):
    """an uninterpreted function of whole arrays (bodies over the variables vs), read at entry idx"""
    out = bind(list(vs), tuple(dims), tuple(bodies))
    return of(mk("matf", out[0], name, out[1], tuple(idx), laws))
def _re_matf(a, s, go=None):
    n = max([x[2] + 1 for x in boundvars(a)] or [0]); (dims, name, bodies, idx, laws) = a.args
    vs, ss = open_(a, n, s); g = go or (lambda x: x)
    if name in MATF: return MATF[name](vs, subarg_top(g(dims), ss), subarg_top(g(bodies), ss), subarg_top(g(idx), ss), laws)
    return matf(name, vs, subarg_top(g(dims), ss), subarg_top(g(bodies), ss), subarg_top(g(idx), ss), laws)
MATF = {}
def boundvars(a):
    out = set()
    def go(x):
        if isinstance(x, Poly): out.update(v for v in x.fv if isinstance(v, tuple) and v[0] == "b" and v[1] == a.h)
        elif isinstance(x, tuple):
            for y in x: go(y)
    go(a.args); return out
def ols(i, k, n, p, Xb, wb, yb, j):
    """coefficient j of the least-squares regression of yb(i) on the columns Xb(i, k), k < p, with weights wb(i); j may be the string
    'intercept'.  Linear in y; exact on linear functions of the columns; with an intercept."""
    out = []
    fi = ONE
    for m, c in yb.t:
        outs = tuple((x, e) for x, e in m if i not in _tab[x].fv); ins = tuple((x, e) for x, e in m if i in _tab[x].fv); o = poly({outs: c})
        if not ins: out.append(o if j == "intercept" else ZERO); continue
        r = None
        # sum over k of Xb(i, k) * b(k)
        if len(ins) == 1 and _tab[ins[0][0]].kind == "S" and ins[0][1] == 1 and len(_tab[ins[0][0]].args[0]) == 1 and _tab[ins[0][0]].args[0][0] is p:
            a = _tab[ins[0][0]]; vs, ss = open_(a, 1, {}); q = subst(a.args[1], ss)
            Xv = subst(Xb, {k: var(vs[0])})
            if len(Xv.t) == 1:
                mm = mdiv_any(q.t[0][0], Xv.t[0][0])
                if mm is not None:
                    b = poly({mm: q.t[0][1] / Xv.t[0][1]})
                    if i not in b.fv: r = ZERO if j == "intercept" else subst(b, {vs[0]: j})
        if r is None:
            q = poly({ins: Fr(1)}); X2, w2 = Xb, wb
            d, b = bind([i, k], (n, p), (X2, w2, q))
            r = of(mk("ols", d, b[0], b[1], b[2], j))
        out.append(mul(o, r))
    return addn(out)
def mdiv_any(m, n):
    d = dict(m)
    for i, e in n:
        if i not in d or d[i] != e: return None
        del d[i]
    return tuple(sorted(d.items()))
def _re_ols(a, s, go=None):
    vs, ss = open_(a, 2, s); g = go or (lambda x: x); (dims, X, w, y, j) = a.args
    return ols(vs[0], vs[1], subst(g(dims[0]), ss), subst(g(dims[1]), ss), subst(g(X), ss), subst(g(w), ss), subst(g(y), ss), j if j == "intercept" else subst(g(j), ss))
def _re_S(a, s, go=None):
    n = len(a.args[0]); vs, ss = open_(a, n, s); g = go or (lambda x: x)
    dims = [subst(g(d), ss) for d in a.args[0]]; p = subst(g(a.args[1]), ss)
    return multisum(vs, dims, p)

REBUILD = {"S": _re_S, "agg": _re_agg, "any": _re_any, "ord": _re_ord, "argsort": _re_argsort, "rank": _re_argsort, "mi": _re_mi, "det": _re_det, "prod": _re_prod, "eigval": _re_eigval, "eigvec": _re_eigvec, "matf": _re_matf, "ols": _re_ols}
def _x(name, *idx, old=None): return of(mk("x", name, *idx, pos=old.pos, integer=old.int, nan=old.nan))
ATOMS = {"x": _x, "abs": absp, "pos": posp, "ind": gt0, "eq0": eq0, "sign": signp, "P": lambda p: p, "f": lambda *a: refun(*a), "def": lambda p: opaque(p), "delta": delta, "isnan": isnanp, "tup": lambda p: of(mk("tup", p)), "inf": lambda: of(mk("inf")), "bool": lambda *a: of(mk("bool", *a)), "low": lambda a: of(mk("low", a)), "floor": lambda p: floorp(p), "powx": lambda p, e: powx(p, e)}
def refun(name, *args):
    if name == "log": return logp(args[0])
    if name in FUNS: return FUNS[name](*args)
    return fun(name, *args)
FUNS = {}
def floorp(p):
    if isconst(p): return const(math.floor(cval(p)))
    ip = {}; rest = {}
    for m, c in p.t:
        if c.denominator == 1 and all(_tab[i].int and e.denominator == 1 and e > 0 for i, e in m): ip[m] = c
        else: rest[m] = c
    if not rest: return p
    # integer part of the coefficients stays outside
    q = poly(rest)
    return add(poly(ip), of(mk("floor", q, integer=True)))
def powx(p, e):
    """power with a symbolic exponent, base positive"""
    if isconst(e): return pw(p, cval(e))
    return of(mk("powx", p, e))

# orthonormality of eigenvectors: sum_a V(a,k) V(a,l) = delta(k,l), sum_k V(a,k) V(b,k) = delta(a,b); inverse: sum_k inv(A)(i,k) A(k,j)
def contract_rev(vs, dims, m):
    """a sum over eigenvectors counted from the end is the sum over all of them"""
    for i, e in m:
        a = _tab[i]
        if a.kind != "eigvec": continue
        for k, v in enumerate(vs):
            if a.args[3] is dims[k] - ONE - var(v) and v not in a.args[2].fv and dims[k] is a.args[0][0]:
                q = subst(poly({tuple(m): Fr(1)}), {v: dims[k] - ONE - var(v)})
                if q.sz < poly({tuple(m): Fr(1)}).sz: return multisum(vs, dims, q)
    return None
def contract_eig(vs, dims, m):
    es = [(i, e) for i, e in m if _tab[i].kind == "eigvec"]
    for x in range(len(es)):
        for y in range(x, len(es)):
            (i, e), (j, f) = es[x], es[y]
            if x == y:
                if e != 2: continue
            elif e != 1 or f != 1: continue
            a, b = _tab[i], _tab[j]
            if a.args[0] is not b.args[0] and a.args[0] != b.args[0] or a.args[1] is not b.args[1]: continue
            for pos, oth in ((2, 3), (3, 2)):
                for k, v in enumerate(vs):
                    vv = var(v)
                    if a.args[pos] is vv and b.args[pos] is vv and v not in a.args[oth].fv and v not in b.args[oth].fv and dims[k] is a.args[0][0] and v not in a.args[1].fv:
                        rest = [z for z in m if z[0] not in (i, j)]
                        if any(v in _tab[z[0]].fv for z in rest): continue
                        d = delta(a.args[oth], b.args[oth])
                        p = mul(poly({tuple(rest): Fr(1)}), d)
                        vs2 = vs[:k] + vs[k + 1:]; d2 = dims[:k] + dims[k + 1:]
                        return sum_all(vs2, d2, p)
    return None
def sum_all(vs, dims, p):
    for v, d in zip(vs, dims): p = sum_(v, d, p)
    return p
def contract_delta(vs, dims, m):
    for i, e in m:
        a = _tab[i]
        if a.kind != "delta": continue
        for x, y in (a.args, a.args[::-1]):
            for k, v in enumerate(vs):
                if x is var(v) and v not in y.fv:
                    rest = poly({tuple(z for z in m if z[0] != i): Fr(1)})
                    return sum_all(vs[:k] + vs[k + 1:], dims[:k] + dims[k + 1:], subst(rest, {v: y}))
    return None
def contract_inv(vs, dims, m):
    for i, e in m:
        a = _tab[i]
        if a.kind != "mi" or e != 1 or a.args[4] != "inv": continue
        dims_, body, x, y, _ = a.args
        if len(body.t) != 1: continue
        bv = [("b", a.h, 0), ("b", a.h, 1)]
        for k, v in enumerate(vs):
            if dims[k] is not dims_[0]: continue
            for s_, oth, side in ((x, y, 1), (y, x, 0)):       # sum_v inv(v, y) A(z, v) = delta(z, y); sum_v inv(x, v) A(v, z) = delta(x, z)
                if s_ is not var(v) or v in oth.fv: continue
                for j, f in m:
                    if j == i or f != 1 or v not in _tab[j].fv or _tab[j].kind not in ("x", "def"): continue
                    z = match_entry(body, bv, _tab[j], v, side)
                    if z is None or v in z.fv: continue
                    rest = [q for q in m if q[0] not in (i, j)]
                    if any(v in _tab[q[0]].fv for q in rest): continue
                    return sum_all(vs[:k] + vs[k + 1:], dims[:k] + dims[k + 1:], mul(poly({tuple(rest): Fr(1)}), delta(z, oth)))
                    break
    return None
def match_entry(body, bv, a, v, side):
    """a = body with bound variable number `side` replaced by v; returns what stands for the other one"""
    (mm, c), = body.t
    if c != 1 or len(mm) != 1 or mm[0][1] != 1: return None
    b = _tab[mm[0][0]]
    if b.kind != "x" or a.kind != "x" or b.args[0] != a.args[0] or len(b.args) != len(a.args): return None
    z = None
    for p, q in zip(b.args[1:], a.args[1:]):
        if p is var(bv[side]):
            if q is not var(v): return None
        elif p is var(bv[1 - side]): z = q
        elif p is not q: return None
    return z
CONTRACT += [contract_delta, contract_rev, contract_eig, contract_inv]

# ------------------------------------------------------------ printing
def show(p, d=0):
    if not p.t: return "0"
    if d > 6: return "..."
    out = []
    for m, c in p.t[:12]:
        s = "*".join(show_atom(_tab[i], d + 1) + ("" if e == 1 else f"^{e}") for i, e in m)
        out.append(s if c == 1 and s else f"{c}" + ("*" + s if s else ""))
    return " + ".join(out) + (f" + ({len(p.t) - 12} more)" if len(p.t) > 12 else "")
def show_atom(a, d=0):
    def g(x):
        if isinstance(x, Poly): return show(x, d + 1)
        if isinstance(x, tuple): return "(" + ",".join(g(y) for y in x) + ")"
        return str(x)
    if a.kind == "v":
        n = a.args[0]; return n if isinstance(n, str) else n[1] + str(n[2]) if n[0] == "t" else f"b{n[1]}.{n[2]}" if n[0] == "b" else str(n)
    if a.kind == "x": return str(a.args[0]) + ("[" + ",".join(g(x) for x in a.args[1:]) + "]" if len(a.args) > 1 else "")
    return a.kind + "(" + ", ".join(g(x) for x in a.args) + ")"

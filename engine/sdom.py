"""Domain S: arrays of unknown length whose elements are z3 terms over bound index variables.

An array is (shape, body): body is a z3 term in the index placeholders k0!, k1!, ... ; elementwise code builds bodies,
reductions become uninterpreted functionals of the body with their contract as facts, sums are kept in linear normal form
(polynomials of index-dependent atoms), if/else on symbolic conditions explores both sides, loops use invariants.
Integers and reals are mathematical.  `ok` is the definedness of an element (not NaN / not infinite)."""
import z3, fractions, math, builtins, types, time, itertools
import core
from core import Sym, Unsupported, PathEnd, UNDEF, Lib, NullLogger

R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
T, F = z3.BoolVal(True), z3.BoolVal(False)
K = [z3.Int(f"k{i}!") for i in range(6)]
INF = z3.Real("inf!")
is_t = lambda e: z3.is_true(e)

def And(*a):
    a = [x for x in a if not z3.is_true(x)]
    if any(z3.is_false(x) for x in a): return F
    return T if not a else (a[0] if len(a) == 1 else z3.And(*a))

def Or(*a):
    a = [x for x in a if not z3.is_false(x)]
    if any(z3.is_true(x) for x in a): return T
    return F if not a else (a[0] if len(a) == 1 else z3.Or(*a))

def Not(a):
    if z3.is_true(a): return F
    if z3.is_false(a): return T
    return a.children()[0] if z3.is_not(a) else z3.Not(a)

def Ite(c, a, b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a.eq(b): return a
    a, b = coerce(a, b)
    if a.sort() == B: return z3.simplify(z3.If(c, a, b))
    return z3.If(c, a, b)

def coerce(a, b):
    if a.sort() == b.sort(): return a, b
    if a.sort() == B: a = z3.If(a, z3.RealVal(1), z3.RealVal(0)) if b.sort() == R else z3.If(a, z3.IntVal(1), z3.IntVal(0))
    if b.sort() == B: b = z3.If(b, z3.RealVal(1), z3.RealVal(0)) if a.sort() == R else z3.If(b, z3.IntVal(1), z3.IntVal(0))
    if a.sort() == I and b.sort() == R: a = real(a)
    if b.sort() == I and a.sort() == R: b = real(b)
    return a, b

def real(e):
    if e.sort() == R: return e
    if e.sort() == B: return z3.If(e, z3.RealVal(1), z3.RealVal(0))
    if z3.is_int_value(e): return z3.RealVal(e.as_long())
    return z3.ToReal(e)

def lit(v):
    """python number -> z3 value (floats as the decimal number they print as)"""
    if isinstance(v, (bool,)) or type(v).__name__ == "bool_": return T if v else F
    if isinstance(v, int) or type(v).__name__.startswith("int"): return z3.IntVal(int(v))
    v = float(v)
    if v != v: return None
    if v in (float("inf"), -float("inf")): return INF if v > 0 else -INF
    f = fractions.Fraction(repr(v))
    return z3.RealVal(f"{f.numerator}/{f.denominator}")

def is_num(v): return isinstance(v, (int, float)) or type(v).__module__ == "numpy" and getattr(v, "ndim", 1) == 0

# ------------------------------------------------------------------ uninterpreted functions with axioms
SQRT = z3.Function("sqrt", R, R); EXP = z3.Function("exp", R, R); LOG = z3.Function("log", R, R)
TANH = z3.Function("tanh", R, R); POW = z3.Function("pow", R, R, R)
RV = z3.RealVal
TRUNC = z3.Function("trunc", R, I); FLOOR = z3.Function("floor", R, I)
def trunc(e):
    v = z3.simplify(e)
    if z3.is_rational_value(v): f = v.as_fraction(); return z3.IntVal(int(f))
    if z3.is_app_of(v, z3.Z3_OP_TO_REAL): return v.children()[0]
    return TRUNC(p_term(poly(e)))
def floor(e):
    v = z3.simplify(e)
    if z3.is_rational_value(v): f = v.as_fraction(); return z3.IntVal(f.numerator // f.denominator)
    if z3.is_app_of(v, z3.Z3_OP_TO_REAL): return v.children()[0]
    return FLOOR(p_term(poly(e)))

def axioms_for(app):
    n = app.decl().name(); a = app.children()
    if n == "sqrt": return [z3.Implies(a[0] >= 0, z3.And(app >= 0, app * app == a[0])), z3.Implies(a[0] > 0, app > 0)]
    if n == "exp": return [app > 0, z3.Implies(a[0] == 0, app == 1), z3.Implies(a[0] > 0, app > 1), z3.Implies(a[0] < 0, app < 1), LOG(app) == a[0], app >= 1 + a[0]]
    if n == "log": return [z3.Implies(a[0] > 0, EXP(app) == a[0]), z3.Implies(a[0] == 1, app == 0), z3.Implies(a[0] > 1, app > 0), z3.Implies(z3.And(a[0] > 0, a[0] < 1), app < 0)]
    if n == "trunc": return [z3.Implies(a[0] >= 0, z3.And(z3.ToReal(app) <= a[0], a[0] < z3.ToReal(app) + 1)), z3.Implies(a[0] < 0, z3.And(z3.ToReal(app) >= a[0], a[0] > z3.ToReal(app) - 1))]
    if n == "floor": return [z3.ToReal(app) <= a[0], a[0] < z3.ToReal(app) + 1]
    if n == "tanh": return [app > -1, app < 1, z3.Implies(a[0] == 0, app == 0), z3.Implies(a[0] > 0, app > 0), z3.Implies(a[0] < 0, app < 0)]
    if n == "pow": return [z3.Implies(a[0] > 0, z3.And(app > 0, app == EXP(a[1] * LOG(a[0])))), z3.Implies(a[1] == 0, app == 1), z3.Implies(a[1] == 1, app == a[0])]
    return []

def pair_axioms(x, y):
    """monotonicity between two applications of the same function"""
    n = x.decl().name(); a, b = x.children(), y.children()
    if n in ("exp", "tanh"): return [z3.Implies(a[0] < b[0], x < y), z3.Implies(b[0] < a[0], y < x), z3.Implies(a[0] == b[0], x == y)]
    if n == "log": return [z3.Implies(z3.And(a[0] > 0, a[0] < b[0]), x < y), z3.Implies(z3.And(b[0] > 0, b[0] < a[0]), y < x), z3.Implies(a[0] == b[0], x == y)]
    if n == "sqrt": return [z3.Implies(z3.And(a[0] >= 0, a[0] < b[0]), x < y), z3.Implies(z3.And(b[0] >= 0, b[0] < a[0]), y < x), z3.Implies(a[0] == b[0], x == y)]
    return []

# ------------------------------------------------------------------ polynomials over atoms
class Poly:
    """dict monomial -> Fraction; monomial = tuple of (atom key, power) sorted; atoms are z3 terms (kept alive in ATOMS)"""
ATOMS = {}
def akey(e):
    i = e.get_id(); ATOMS.setdefault(i, e); return i

def p_const(c): return {(): fractions.Fraction(c)} if c else {}
def p_atom(e): return {((akey(e), 1),): fractions.Fraction(1)}
def p_add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def m_mul(m1, m2):
    d = dict(m1)
    for k, p in m2:
        q = d.get(k, 0) + p
        if k in INDIC: q = 1 if q else 0
        if q: d[k] = q
        else: d.pop(k, None)
    # both an indicator and its complement: zero
    ks = [k for k in d if k in INDIC]
    for k in ks:
        if INDIC[k] in d: return None
    return tuple(sorted(d.items()))
def p_mul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            if m is None: continue
            v = r.get(m, 0) + c1 * c2
            if v: r[m] = v
            else: r.pop(m, None)
    if len(r) > 4000: raise Unsupported("polynomial too large")
    return r
INDIC = {}    # atom key of an indicator -> key of its complement (or -1)
IND = z3.Function("ind", B, R)
def indicator(c):
    """polynomial of the indicator of condition c"""
    if z3.is_true(c): return p_const(1)
    if z3.is_false(c): return {}
    if z3.is_not(c): return p_add(p_const(1), indicator(c.children()[0]), -1)
    if z3.is_and(c):
        r = p_const(1)
        for x in c.children(): r = p_mul(r, indicator(x))
        return r
    if z3.is_or(c):
        r = p_const(1)
        for x in c.children(): r = p_mul(r, p_add(p_const(1), indicator(x), -1))
        return p_add(p_const(1), r, -1)
    c = z3.simplify(c)
    if z3.is_true(c) or z3.is_false(c) or z3.is_not(c) or z3.is_and(c) or z3.is_or(c): return indicator(c)
    c, neg = canon_rel(c)
    if neg: return p_add(p_const(1), indicator(c), -1)
    a = IND(c); k = akey(a); INDIC[k] = -1
    return {((k, 1),): fractions.Fraction(1)}

def canon_rel(c):
    """p = 0 and p <= 0 with p in normal form and leading coefficient 1 (or -1); strict relations as negations"""
    k = c.decl().kind()
    if k not in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT): return c, False
    a, b = c.children()
    if a.sort() != R: return c, False
    try: p = p_add(poly(a), poly(b), -1)
    except Unsupported: return c, False
    if not p or len(p) > 30: return c, False
    lead = sorted((m, q) for m, q in p.items() if m)[:1]
    if not lead: return c, False
    l = lead[0][1]; f = l if k == z3.Z3_OP_EQ else abs(l); p = {m: q / f for m, q in p.items()}
    t = p_term(p); tn = p_term({m: -q for m, q in p.items()})
    if k == z3.Z3_OP_EQ: return t == 0, False
    if k == z3.Z3_OP_LE: return t <= 0, False
    if k == z3.Z3_OP_GE: return tn <= 0, False
    if k == z3.Z3_OP_GT: return t <= 0, True
    return tn <= 0, True

INV = z3.Function("inv", R, R)
_pc = {}
def poly(e):
    k = e.get_id()
    if k in _pc: return _pc[k][1]
    r = _poly(e); _pc[k] = (e, r); return r
def _poly(e):
    if z3.is_rational_value(e): return p_const(fractions.Fraction(e.numerator_as_long(), e.denominator_as_long()))
    if z3.is_int_value(e): return p_const(e.as_long())
    d = e.decl().kind(); ch = e.children()
    if d == z3.Z3_OP_ADD:
        r = {}
        for c in ch: r = p_add(r, poly(c))
        return r
    if d == z3.Z3_OP_SUB:
        r = poly(ch[0])
        for c in ch[1:]: r = p_add(r, poly(c), -1)
        return r
    if d == z3.Z3_OP_UMINUS: return p_add({}, poly(ch[0]), -1)
    if d == z3.Z3_OP_MUL:
        r = p_const(1)
        for c in ch: r = p_mul(r, poly(c))
        return r
    if d == z3.Z3_OP_DIV: return p_mul(poly(ch[0]), p_inv(poly(ch[1])))
    if d == z3.Z3_OP_POWER:
        if z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1 and 0 <= ch[1].numerator_as_long() <= 8:
            r = p_const(1); b = poly(ch[0])
            for _ in range(ch[1].numerator_as_long()): r = p_mul(r, b)
            return r
    if d == z3.Z3_OP_ITE and e.sort() != B:
        i = indicator(ch[0]); return p_add(poly(ch[2]), p_mul(i, p_add(poly(ch[1]), poly(ch[2]), -1)))
    if d == z3.Z3_OP_TO_REAL:
        c = ch[0]; ck = c.decl().kind(); cc = c.children()
        if ck in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS) or z3.is_int_value(c):
            return poly(c.__class__ and z3.substitute(z3.simplify(c), )) if False else _poly_int(c)
        if ck == z3.Z3_OP_ITE: return poly(z3.If(cc[0], real(cc[1]), real(cc[2])))
        return p_atom(e)
    if e.decl().name() == "sqrt":
        return p_sqrt(e)
    return p_atom(e)
def _poly_int(c):
    if z3.is_int_value(c): return p_const(c.as_long())
    k = c.decl().kind(); ch = c.children()
    if k == z3.Z3_OP_ADD:
        r = {}
        for x in ch: r = p_add(r, _poly_int(x))
        return r
    if k == z3.Z3_OP_SUB:
        r = _poly_int(ch[0])
        for x in ch[1:]: r = p_add(r, _poly_int(x), -1)
        return r
    if k == z3.Z3_OP_UMINUS: return p_add({}, _poly_int(ch[0]), -1)
    if k == z3.Z3_OP_MUL:
        r = p_const(1)
        for x in ch: r = p_mul(r, _poly_int(x))
        return r
    return poly(z3.ToReal(c)) if k == z3.Z3_OP_ITE else p_atom(z3.ToReal(c))
def p_inv(p):
    """1/p; a single monomial is inverted factor by factor, anything else becomes the atom inv(p)"""
    if len(p) == 1:
        (m, c), = p.items()
        if not any(k in INDIC for k, _ in m): return {tuple(sorted((k, -q) for k, q in m)): 1 / c}
    if not p: return p_atom(INV(RV(0)))
    # normalise the leading coefficient
    lead = sorted(p.items())[0][1]
    q = {m: c / lead for m, c in p.items()}
    a = p_term(q)
    return {((akey(DEN(a)), -1),): 1 / lead}
DEN = z3.Function("den", R, R)     # den(e) = e: keeps a sum in a denominator as one atom
def p_sqrt(e): return p_atom(SQRT(p_term(poly(e.children()[0]))))
def p_term(p):
    """canonical z3 term of a polynomial"""
    out = []
    for m, c in sorted(p.items()):
        num = [z3.RealVal(str(c))] if c != 1 or not m else []
        den = []
        for k, q in m:
            a = ATOMS[k]
            (num if q > 0 else den).extend([a] * builtins.abs(q))
        t = num[0] if num else RV(1)
        for x in num[1:]: t = t * x
        for x in den: t = t / x
        out.append(t)
    if not out: return RV(0)
    r = out[0]
    for x in out[1:]: r = r + x
    return r

def undo(e):
    """ind(c) -> ite, den(x) -> x, inv"""
    return e

_fv = {}
def has(e, var):
    """does the term mention the constant var?"""
    key = (e.get_id(), var.get_id())
    if key in _fv: return _fv[key][1]
    r = e.eq(var) or any(has(c, var) for c in e.children())
    _fv[key] = (e, r); return r

def subst(e, pairs):
    pairs = [(a, b) for a, b in pairs if not a.eq(b)]
    if not pairs: return e
    return z3.substitute(e, *pairs)

# ------------------------------------------------------------------ values
class Num(Sym):
    __slots__ = ("e", "ok")
    def __init__(s, e, ok=T): s.e = e; s.ok = ok
    @property
    def dtype(s): return DType("i" if s.e.sort() == I else "b" if s.e.sort() == B else "f")
    shape = (); ndim = 0; size = 1
    def __repr__(s): return f"Num({s.e})"
    def __bool__(s):
        if s.e.sort() != B: return D().branch(s.e != 0)
        return D().branch(s.e)
    def __index__(s):
        v = z3.simplify(s.e)
        if z3.is_int_value(v): return v.as_long()
        raise Unsupported(f"symbolic integer {v} where a concrete one is needed")
    def __int__(s): return s.__index__()
    def __float__(s):
        v = z3.simplify(s.e)
        if z3.is_rational_value(v): return float(v.as_fraction())
        raise Unsupported(f"symbolic number {v} where a concrete one is needed")
    def __format__(s, f): return "<num>"
    def isinstance_of(s, p):
        k = s.dtype.kind
        n = p.split(".")[-1]
        if k == "i": return n in ("int", "integer", "int64", "number")
        if k == "b": return n in ("bool", "bool_")
        return n in ("float", "float64", "floating", "number")
    def astype(s, t): return D().astype(s, t)
    def reshape(s, *a): return D().reshape(D().arr(s), *a)
    def item(s): return s
    def sum(s, *a, **k): return s
    def __hash__(s): return hash(s.e)
    def flatten(s): return D().reshape(D().arr(s), -1)
    def __getitem__(s, i):
        if isinstance(i, Num) and i.e.sort() == B: return Num(s.e, s.ok)     # x[mask] of a scalar: used under the same mask
        raise Unsupported("indexing a scalar")
    def __setitem__(s, i, v):
        if isinstance(i, Num) and i.e.sort() == B:
            v = D().num(v); s.e, s.ok = Ite(i.e, *coerce(v.e, s.e)), Ite(i.e, v.ok, s.ok); return
        raise Unsupported("item assignment of a scalar")

class Arr(Sym):
    """shape: tuple of z3 Ints; body over K[0..r-1]; filt: None or (base length, condition over K[0]) when axis 0 is a boolean selection"""
    def __init__(s, shape, body, ok=T, filt=None):
        s.shape_ = tuple(shape); s.body = body; s.ok = ok; s.filt = filt; s.frame = None
    def __repr__(s): return f"Arr{s.shape_}"
    @property
    def shape(s): return tuple(D().length(s) if i == 0 else Num(n) for i, n in enumerate(s.shape_))
    @property
    def ndim(s): return len(s.shape_)
    @property
    def size(s):
        r = s.shape[0]
        for x in s.shape[1:]: r = r * x
        return r
    @property
    def dtype(s): return DType("i" if s.body.sort() == I else "b" if s.body.sort() == B else "f")
    @property
    def T(s):
        if s.ndim < 2: return s
        return Arr(s.shape_[::-1], subst(s.body, [(K[0], K[1]), (K[1], K[0])]), subst(s.ok, [(K[0], K[1]), (K[1], K[0])]))
    @property
    def values(s): return s
    def __len__(s): raise Unsupported("len")
    def __bool__(s):
        if all(z3.is_int_value(z3.simplify(n)) and z3.simplify(n).as_long() == 1 for n in s.shape_): return bool(s.at(*[0] * s.ndim))
        raise Unsupported("truth value of an array")
    def isinstance_of(s, p): return p in ("numpy.ndarray", "ndarray")
    def at(s, *idx):
        idx = [i if isinstance(i, z3.ExprRef) else z3.IntVal(i) for i in idx]
        ps = list(zip(K, idx))
        return Num(subst(s.body, ps), subst(s.ok, ps))
    def copy(s): return Arr(s.shape_, s.body, s.ok, s.filt)
    def astype(s, t): return D().astype(s, t)
    def flatten(s): return D().reshape(s, -1)
    ravel = flatten
    def reshape(s, *a): return D().reshape(s, *a)
    def squeeze(s, *a): return s
    def __getitem__(s, i): return D().getitem(s, i)
    def __setitem__(s, i, v): D().setitem(s, i, v)
    def __iter__(s):
        n = z3.simplify(s.shape_[0])
        if s.filt is None and z3.is_int_value(n):
            return iter([D().getitem(s, j) for j in range(n.as_long())])
        raise Unsupported("iteration over an array of unknown length")
    def __hash__(s): return id(s)
    def any(s, *a, **k): return D().np_any(s, *a, **k)
    def all(s, *a, **k): return D().np_all(s, *a, **k)
    def tolist(s): return s
def _mk(name):
    def f(s, *a, **k):
        h = D().handlers.get("numpy." + name)
        return h(s, *a, **k)
    return f
for _n in ("sum", "mean", "var", "std", "max", "min", "argsort", "dot", "argmin", "argmax"): setattr(Arr, _n, _mk(_n))

class DType:
    def __init__(s, k): s.kind = k
    def __eq__(s, o): return isinstance(o, DType) and o.kind == s.kind
    def __hash__(s): return hash(s.kind)

class SymRange(Sym):
    def __init__(s, lo, hi): s.lo, s.hi = lo, hi
    def isinstance_of(s, p): return p == "range"
    def __iter__(s): raise Unsupported("iteration over a range of unknown length")

class SymEnum(Sym):
    """iteration over elements of sequences: fn(i) gives the item"""
    def __init__(s, n, fn): s.n, s.fn = n, fn
    def isinstance_of(s, p): return False
    def __iter__(s): raise Unsupported("iteration over a sequence of unknown length")

class SymList(Sym):
    """list of unknown length given by fn(index term)"""
    def __init__(s, n, fn): s.n, s.fn = n, fn
    def isinstance_of(s, p): return p == "list"
    def __getitem__(s, i):
        return s.fn(i.e if isinstance(i, Num) else z3.IntVal(i))
    def __iter__(s): raise Unsupported("iteration over a list of unknown length")
    def __len__(s): raise Unsupported("len")

def binop(name):
    def f(a, b): return D().binary(name, a, b)
    def r(a, b): return D().binary(name, b, a)
    return f, r
for cls in (Num, Arr):
    for n in ("add", "sub", "mul", "truediv", "pow", "floordiv", "mod", "and", "or", "xor"):
        f, r = binop(n); setattr(cls, f"__{n}__", f); setattr(cls, f"__r{n}__", r)
    for n in ("lt", "le", "gt", "ge", "eq", "ne"):
        setattr(cls, f"__{n}__", binop(n)[0])
    cls.__neg__ = lambda s: D().unary("neg", s)
    cls.__pos__ = lambda s: s
    cls.__abs__ = lambda s: D().unary("abs", s)
    cls.__invert__ = lambda s: D().unary("not", s)
Num.__hash__ = lambda s: hash(s.e); Arr.__hash__ = lambda s: id(s)
Arr.__matmul__ = lambda s, o: D().np_matmul(s, o)
Arr.__rmatmul__ = lambda s, o: D().np_matmul(o, s)

_D = [None]
def D(): return _D[0]

class Frame(Sym):
    """a pandas DataFrame (or Series) holding the values of arr, with arbitrary labels"""
    def __init__(s, arr, kind="DataFrame"): s.arr_ = arr; s.kind = kind
    def isinstance_of(s, p): return p == "pandas." + s.kind
    @property
    def values(s): return s.arr_
    def to_numpy(s, *a, **k): return s.arr_
    @property
    def shape(s): return s.arr_.shape
    @property
    def columns(s): return SymList(s.arr_.shape_[1], lambda i: "col") if s.kind == "DataFrame" else None
    index = None; name = "name"

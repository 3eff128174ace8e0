"""Domain T, part 2: symbolic arrays over tdom normal forms, and the relational explorer.

`relate(run1, run2, ...)` runs the code twice on every path.  Branch decisions are keyed by the normal form of the condition, so both runs
take the same branch exactly when their conditions have the same normal form.  A loop over a symbolic range (and every `while` loop) is cut:
its body is run once from an arbitrary state in run 1 and from the corresponding state in run 2; the correspondence of every variable is
one of the actions given with the property (identity, + c, * d, ...), is checked at loop entry and must be re-established by the body."""
import copy, time, builtins, types, itertools, math, traceback
from fractions import Fraction as Fr
import core
from core import Sym, Unsupported, PathEnd, UNDEF
from tdom import *
import tdom

KV = [var(("K", i)) for i in range(8)]
def Kn(i): return ("K", i)
class Stop(BaseException): pass
class Restart(BaseException): pass
_D = [None]
import os; DBG = os.environ.get("TDBG")

def P_(v):
    """Poly of a scalar value"""
    if isinstance(v, Poly): return v
    if isinstance(v, A):
        if v.shape_: 
            if all(d is ONE for d in v.shape_): return subst(v.body, {Kn(i): ZERO for i in range(len(v.shape_))})
            raise Unsupported("array used as a number")
        return v.body
    if isinstance(v, bool): return ONE if v else ZERO
    if isinstance(v, (int, Fr)): return const(v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")): return of(mk("x", f"const:{v}", nan=v != v))
        return const(Fr(repr(v)))
    if isinstance(v, core.Lib) and v._real is not None and isinstance(v._real, (int, float)): return P_(v._real)
    if type(v).__module__ == "numpy" and hasattr(v, "item") and getattr(v, "ndim", 1) == 0: return P_(v.item())
    raise Unsupported(f"not a number: {core.short(v)}")

def ren(p, pairs): return subst(p, {Kn(a): (KV[b] if isinstance(b, int) else b) for a, b in pairs})

class A(Sym):
    """array (or scalar, shape ()): body over KV[0..]; filt[d]: indicator over KV[d] of the positions present along axis d (ONE: all)"""
    __array_priority__ = 1000; rel = None       # rel: positions within this selection (not within the whole axis)
    def __init__(self, shape, body, dtype="f", filt=None, root=None, flat=None):
        self.shape_ = tuple(shape); self.body = body; self.dt = dtype; self.filt = tuple(filt) if filt is not None else (ONE,) * len(self.shape_)
        self.root = root if root is not None else self; self.ver = 0; self.frozen = False; self.flat = flat; self.view = root is not None; self.back = None; self.ro = False
        if _D[0] is not None and _D[0].cutsize and body is not None and body.sz > _D[0].cutsize: self.body = _D[0].cut(self)
    @property
    def domain(self): return _D[0]
    def isinstance_of(self, name):
        n = name.split(".")[-1]
        if self.shape_: return n in ("ndarray", "Iterable")
        if n == "float": return self.dt == "f"
        if n in ("int", "integer", "Integral"): return self.dt == "i"
        if n in ("floating", "float64"): return self.dt == "f" and False
        if n == "Number" or n == "Real": return True
        if n == "bool": return self.dt == "b"
        return False
    def __hash__(self): return id(self)
    def __format__(self, spec): return repr(self)
    def __repr__(self): return f"A{tuple(show(x) for x in self.shape_)}<{show(self.body)[:80]}>"
    # shape
    @property
    def ndim(self): return 1 if self.flat is not None else len(self.shape_)
    def dim(self, d):
        return self.shape_[d] if self.filt[d] is ONE else sum_(Kn(d), self.shape_[d], self.filt[d])
    @property
    def shape(self):
        if self.flat is not None: return (S_(self.size_()),)
        return tuple(S_(self.dim(d)) for d in range(len(self.shape_)))
    def size_(self):
        if self.flat is not None:
            c = self.flat
            for d, n in enumerate(self.shape_): c = sum_(Kn(d), n, c)
            return c
        return prodp([self.dim(d) for d in range(len(self.shape_))])
    @property
    def size(self): return S_(self.size_())
    def __len__(self):
        n = self.dim(0)
        if isconst(n): return int(cval(n))
        raise Unsupported("len() through the C protocol")
    @property
    def T(self):
        n = len(self.shape_)
        if n < 2: return self
        r = A(self.shape_[::-1], ren(self.body, [(i, n - 1 - i) for i in range(n)]), self.dt, [ren(f, [(i, n - 1 - i)]) for i, f in reversed(list(enumerate(self.filt)))], root=self.root); return self.mkview(r)
    def mkview(self, r): r.frozen = self.frozen; r.ro = self.ro; return r
    @property
    def dtype(self): return DType(self.dt)
    @property
    def values(self): return self
    @property
    def real(self): return self
    @property
    def flags(self): return types.SimpleNamespace(writeable=True)
    # truth
    def __bool__(self):
        if self.shape_ and not all(d is ONE for d in self.shape_): raise Unsupported("truth value of an array")
        p = P_(self)
        if self.dt != "b": p = notp(eq0(p))
        return self.domain.branch(p)
    def __index__(self):
        if isconst(self.body) and not self.shape_: return int(cval(self.body))
        raise Unsupported("symbolic integer where a concrete one is needed")
    def __int__(self):
        if isconst(self.body) and not self.shape_: return int(cval(self.body))
        raise Unsupported("int() of a symbolic number")
    def __float__(self):
        if isconst(self.body) and not self.shape_: return float(cval(self.body))
        raise Unsupported("float() of a symbolic number")
    def __iter__(self):
        if self.shape_ and isconst(self.shape_[0]) and self.filt[0] is ONE: return iter([self[i] for i in range(int(cval(self.shape_[0])))])
        raise Unsupported("iteration over a symbolic array outside a for loop")
    # arithmetic
    def _bin(self, o, f, dt=None): return lift(f, self, o, dt=dt)
    def __add__(self, o): return self._bin(o, add)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, mul)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._bin(o, lambda a, b: mul(a, inv(b)), "f")
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: mul(b, inv(a)), "f")
    def __pow__(self, o): return self._bin(o, powx)
    def __rpow__(self, o): return self._bin(o, lambda a, b: powx(b, a))
    def __floordiv__(self, o): return self._bin(o, lambda a, b: floorp(mul(a, inv(b))))
    def __rfloordiv__(self, o): return self._bin(o, lambda a, b: floorp(mul(b, inv(a))))
    def __mod__(self, o): return self._bin(o, lambda a, b: a - mul(b, floorp(mul(a, inv(b)))))
    def __neg__(self): return lift(lambda a: -a, self)
    def __pos__(self): return self
    def __abs__(self): return lift(absp, self)
    def __lt__(self, o): return self._bin(o, lambda a, b: gt0(b - a), "b")
    def __gt__(self, o): return self._bin(o, lambda a, b: gt0(a - b), "b")
    def __le__(self, o): return self._bin(o, lambda a, b: ge0(b - a), "b")
    def __ge__(self, o): return self._bin(o, lambda a, b: ge0(a - b), "b")
    def __eq__(self, o):
        if isinstance(o, (str, type(None), list, tuple)) and not isinstance(o, A): return False
        return self._bin(o, lambda a, b: eq0(a - b), "b")
    def __ne__(self, o):
        if isinstance(o, (str, type(None))): return True
        return self._bin(o, lambda a, b: notp(eq0(a - b)), "b")
    def __and__(self, o): return self._bin(o, mul, "b")
    __rand__ = __and__
    def __or__(self, o): return self._bin(o, orp, "b")
    __ror__ = __or__
    def __xor__(self, o): return self._bin(o, lambda a, b: a + b - scale(mul(a, b), 2), "b")
    def __invert__(self): return lift(notp, self, dt="b")
    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(o, self)
    def _inplace(self, r):
        self.domain.write(self)
        if len(r.shape_) != len(self.shape_): raise Unsupported("in-place operation that changes the shape")
        if not self.shape_: return r
        self.set(r.body); self.filt = r.filt; return self
    def __iadd__(self, o): return self._inplace(self + o) if self.shape_ else self + o
    def __isub__(self, o): return self._inplace(self - o) if self.shape_ else self - o
    def __imul__(self, o): return self._inplace(self * o) if self.shape_ else self * o
    def __itruediv__(self, o): return self._inplace(self / o) if self.shape_ else self / o
    def __iand__(self, o): return self._inplace(self & o) if self.shape_ else self & o
    def __ior__(self, o): return self._inplace(self | o) if self.shape_ else self | o
    def set(self, body):
        self.body = body; self.ver += 1
        if self.back is not None: self.back(self)
    # indexing
    def __getitem__(self, key): return getitem(self, key)
    def __setitem__(self, key, v): setitem(self, key, v)
    # methods -> numpy contracts
    def __getattr__(self, a):
        if a.startswith("__"): raise AttributeError(a)
        h = _D[0].handlers.get("method." + a)
        if h is not None: return lambda *x, **k: h(self, *x, **k)
        h = _D[0].handlers.get("numpy." + a)
        if h is not None and a in NPMETH: return lambda *x, **k: h(self, *x, **k)
        raise (AttributeError if a in ("iloc", "loc", "columns", "index", "to_numpy") else Unsupported)(f"array.{a}")
NPMETH = {"mean", "sum", "min", "max", "any", "all", "std", "var", "cumsum", "argsort", "dot", "ravel", "round", "argmax", "argmin", "prod", "clip", "squeeze", "transpose", "repeat", "nonzero", "trace"}

class DType(Sym):
    def __init__(self, c): self.c = c; self.kind = {"f": "f", "i": "i", "b": "b"}.get(c, "O")
    def isinstance_of(self, n): return n.endswith("dtype")
    def __eq__(self, o): return {"f": ("float", "float64"), "i": ("int", "int64"), "b": ("bool", "bool_")}.get(self.c, ("object", "O")).__contains__(getattr(o, "c", None) and {"f": "float", "i": "int", "b": "bool"}[o.c] if isinstance(o, DType) else getattr(o, "__name__", str(o)).split(".")[-1])
    def __hash__(self): return hash(self.c)

def S_(p, dt="i"):
    """scalar; concrete integers stay concrete"""
    if isconst(p) and cval(p).denominator == 1 and dt == "i": return int(cval(p))
    return A((), p, dt)
def R_(p): return A((), p, "f")

def arr(v):
    if isinstance(v, A): return v
    if isinstance(v, FrameT): return v.data
    if isinstance(v, SymList):
        x = v.fn(KV[7]); x = arr(x); r = len(x.shape_); ps = [(d, d + 1) for d in range(r)]
        if x.flat is not None: raise Unsupported("stack of flattened selections")
        return A((v.n,) + x.shape_, subst(ren(x.body, ps), {Kn(7): KV[0]}), x.dt, (ONE,) + tuple(ren(f, ps) for f in x.filt))
    if isinstance(v, (list, tuple)):
        xs = [arr(x) for x in v]
        if not xs: return A((ZERO,), ZERO)
        sh = xs[0].shape_; r = len(sh); body = ZERO; ps = [(d, d + 1) for d in range(r)]
        for i, x in enumerate(xs):
            if len(x.shape_) != r: raise Unsupported("ragged array")
            body = add(body, mul(delta(KV[0], const(i)), ren(x.body, ps)))
        return A((const(len(xs)),) + tuple(sh), body, "f" if any(x.dt == "f" for x in xs) else xs[0].dt)
    if isinstance(v, (bool,)): return A((), P_(v), "b")
    if isinstance(v, int): return A((), const(v), "i")
    if type(v).__module__ == "numpy" and getattr(v, "ndim", 0): return arr(v.tolist())
    return A((), P_(v), "f")

def bshape(xs):
    r = max(len(x.shape_) for x in xs); sh = [ONE] * r; fl = [ONE] * r
    for x in xs:
        o = r - len(x.shape_)
        for d, n in enumerate(x.shape_):
            if n is ONE and x.filt[d] is ONE: continue
            f = ren(x.filt[d], [(d, d + o)])
            if sh[d + o] is ONE and fl[d + o] is ONE: sh[d + o], fl[d + o] = n, f
            elif sh[d + o] is not n or fl[d + o] is not f:
                raise Unsupported(f"operands with different shapes {[tuple(map(show, y.shape_)) for y in xs]}" + (f", selections {show(fl[d + o])[:400]} / {show(f)[:400]}" if sh[d + o] is n else ""))
    return sh, fl
def bbody(x, r, sh):
    o = r - len(x.shape_); s = {}
    for d, n in enumerate(x.shape_):
        s[Kn(d)] = ZERO if (n is ONE and sh[d + o] is not ONE) else KV[d + o]
    return subst(x.body, s)
def lift(f, *vs, dt=None):
    fr = [v for v in vs if isinstance(v, FrameT)]
    if fr: return fr[0].wrap(lift(f, *[v.data if isinstance(v, FrameT) else v for v in vs], dt=dt))
    xs = [arr(v) for v in vs]
    if any(x.flat is not None for x in xs):
        fl = next(x for x in xs if x.flat is not None)
        if any((x.flat is not None and x.flat is not fl.flat) or (x.flat is None and x.shape_) for x in xs): raise Unsupported("different selections combined")
        return A(fl.shape_, f(*[x.body for x in xs]), dt or rdt(xs), fl.filt, flat=fl.flat)
    sh, fl = bshape(xs); r = len(sh)
    return A(sh, f(*[bbody(x, r, sh) for x in xs]), dt or rdt(xs), fl)
def rdt(xs): return "f" if any(x.dt == "f" for x in xs) else "i" if any(x.dt == "i" for x in xs) else "b" if all(x.dt == "b" for x in xs) else "f"

def matmul(a, b):
    if isinstance(a, FrameT) or isinstance(b, FrameT): raise Unsupported("matrix product with a frame")
    a, b = arr(a), arr(b); ra, rb = len(a.shape_), len(b.shape_)
    if ra == 0 or rb == 0: raise Unsupported("matmul of scalars")
    t = fresh("m"); tv = var(t)
    n1, n2 = a.shape_[-1], b.shape_[0 if rb == 1 else rb - 2]
    fa = ren(a.filt[-1], [(ra - 1, tv)]); fb = ren(b.filt[max(rb - 2, 0)], [(max(rb - 2, 0), tv)])
    if n1 is not n2 or fa is not fb: raise Unsupported(f"matmul of shapes {tuple(map(show, a.shape_))} and {tuple(map(show, b.shape_))}" + (f", selections {show(fa)[:900]} / {show(fb)[:900]}" if fa is not fb else ""))
    if ra > 2 or rb > 2: raise Unsupported("matmul of more than two dimensions")
    ab = ren(a.body, [(ra - 1, tv)]); 
    if rb == 1: bb = ren(b.body, [(0, tv)]); sh, fl = a.shape_[:-1], a.filt[:-1]
    else:
        bb = subst(b.body, {Kn(0): tv, Kn(1): KV[ra - 1]}); sh = a.shape_[:-1] + (b.shape_[1],); fl = a.filt[:-1] + (ren(b.filt[1], [(1, ra - 1)]),)
    return A(sh, sum_(t, n1, mul(fa, mul(ab, bb))), "f", fl)

# ------------------------------------------------------------ indexing
class Ix:
    def __init__(self, parts): self.parts = parts
def sl(s, n):
    """slice on a range of length n: (start, length, step)"""
    st = 1 if s.step is None else s.step
    if isinstance(st, A): st = int(st)
    D = _D[0]
    def norm(v, dflt):
        if v is None: return dflt
        p = P_(v)
        if isconst(p): return p if cval(p) >= 0 else add(n, p)
        if nonneg(scale(p, -1)): return add(n, p)
        return p
    if st == 1:
        a = norm(s.start, ZERO); b = norm(s.stop, n)
        if s.stop is not None and isconst(b) and not nonneg(n - b): 
            if isconst(n): b = n if cval(n) < cval(b) else b
        if isconst(n) and isconst(a) and isconst(b): return a, const(max(0, min(cval(b), cval(n)) - cval(a))), 1
        return a, b - a, 1
    if st == -1 and s.start is None and s.stop is None: return n - ONE, n, -1
    raise Unsupported(f"slice {s}")
def nkeys(x, key):
    ks = [k.data if isinstance(k, FrameT) else k for k in key] if isinstance(key, tuple) else [key]
    if any(k is Ellipsis for k in ks):
        i = next(i for i, k in enumerate(ks) if k is Ellipsis); m = len(x.shape_) - sum(k is not None for k in ks) + 1
        ks[i:i + 1] = [slice(None)] * m
    return ks
def getitem(x, key):
    if isinstance(key, Ix): key = tuple(key.parts); ix = True
    else: ix = False
    if isinstance(key, FrameT): key = key.data
    if x.flat is not None: raise Unsupported("indexing a flattened selection")
    if isinstance(key, A) and key.dt == "b" and not key.shape_ and not x.shape_: return A((ONE,), x.body, x.dt, (key.body,))
    if isinstance(key, A) and key.dt == "b" and len(key.shape_) == 2 and len(x.shape_) == 2:
        return A(x.shape_, x.body, x.dt, x.filt, flat=mul(key.body, ONE))
    ks = nkeys(x, key); s = {}; sh = []; fl = []; out = 0; d = 0; view = True; adv = None
    for k in ks:
        if k is None: sh.append(ONE); fl.append(ONE); out += 1; continue
        if d >= len(x.shape_): raise Unsupported("too many indices")
        n, f = x.shape_[d], x.filt[d]
        if isinstance(k, slice):
            if k == slice(None): s[Kn(d)] = KV[out]; sh.append(n); fl.append(ren(f, [(d, out)]))
            else:
                if f is not ONE: raise Unsupported("slice of a filtered axis")
                a, m, st = sl(k, n); s[Kn(d)] = add(a, KV[out]) if st == 1 else a - KV[out]; sh.append(m); fl.append(ONE)
            out += 1
        elif isinstance(k, (list, range)) or (isinstance(k, (A, SymList)) and (isinstance(k, SymList) or k.shape_)) or (type(k).__module__ == "numpy" and getattr(k, "ndim", 0)):
            k = arr(k); view = False
            if k.dt == "b":
                if len(k.shape_) != 1: raise Unsupported("mask of several dimensions")
                if f is not ONE: 
                    if k.filt[0] is not f and ren(k.filt[0], [(0, d)]) is not f: raise Unsupported("mask on a filtered axis")
                s[Kn(d)] = KV[out]; sh.append(n); fl.append(mul(ren(k.body, [(0, out)]), ren(f, [(d, out)]))); out += 1
            else:
                if f is not ONE and not (k.rel is not None and k.rel is ren(f, [(d, 0)])): raise Unsupported("index array on a filtered axis")
                kb = subst(k.body, {Kn(i): KV[out + i] for i in range(len(k.shape_))})
                if adv is not None and not ix:
                    if len(k.shape_) != 1 or adv[1] != k.shape_: raise Unsupported("two index arrays")
                    s[Kn(d)] = subst(k.body, {Kn(0): KV[adv[0]]}); d += 1; continue
                adv = (out, k.shape_)
                s[Kn(d)] = negidx(kb, n); sh += list(k.shape_); fl += [ren(g, [(i, out + i)]) for i, g in enumerate(k.filt)]; out += len(k.shape_)
        else:
            p = P_(k)
            if isconst(p) and cval(p) < 0: p = add(n, p)
            if f is not ONE: raise Unsupported("element of a filtered axis")
            s[Kn(d)] = p
        d += 1
    for e in range(d, len(x.shape_)): s[Kn(e)] = KV[out]; sh.append(x.shape_[e]); fl.append(ren(x.filt[e], [(e, out)])); out += 1
    r = A(sh, subst(x.body, s), x.dt, fl, root=x.root if view and sh else None)
    if view and sh:
        x.mkview(r)
        if x is x.root or x.back is not None or True: r.back = viewback(x, key)
    return r
def negidx(p, n): return p
def viewback(x, key):
    def back(r): setitem(x, key, A(r.shape_, r.body, r.dt, r.filt), fromview=True)
    return back
def setitem(x, key, v, fromview=False):
    D = _D[0]; D.write(x)
    if isinstance(key, Ix): key = tuple(key.parts)
    if isinstance(key, FrameT): key = key.data
    v = arr(v)
    if isinstance(key, A) and key.dt == "b" and not key.shape_ and not x.shape_:
        x.set(where(key.body, subst(v.body, {Kn(0): ZERO}), x.body)); return
    if isinstance(key, A) and key.dt == "b" and len(key.shape_) == len(x.shape_) and len(key.shape_) >= 1 and (len(key.shape_) == 2 or True) and not (len(key.shape_) == 1 and len(x.shape_) > 1):
        c = key.body
        if v.flat is not None:
            if v.flat is not c: raise Unsupported("assignment from another selection")
            val = v.body
        elif not v.shape_: val = v.body
        elif len(v.shape_) == 1 and len(x.shape_) == 1 and ren(v.filt[0], []) is c: val = v.body
        else: raise Unsupported("masked assignment")
        x.set(where(c, val, x.body)); return
    ks = nkeys(x, key); c = ONE; free = []; d = 0; inv_ = {}
    for k in ks:
        if k is None: raise Unsupported("None in assignment")
        n = x.shape_[d]
        if isinstance(k, slice):
            if k == slice(None): free.append((d, KV[d], ONE if False else x.filt[d], n))
            else:
                a, m, st = sl(k, n)
                if st == 1:
                    if not (isconst(a) and cval(a) == 0): c = mul(c, ge0(KV[d] - a))
                    if add(a, m) is not n: c = mul(c, gt0(add(a, m) - KV[d]))
                    free.append((d, KV[d] - a, ONE, m))
                else: free.append((d, a - KV[d], ONE, m))
        elif isinstance(k, (list, range)) or (isinstance(k, A) and k.shape_) or isinstance(k, SymList):
            k = arr(k)
            if k.dt == "b":
                m = ren(k.body, [(0, d)]); c = mul(c, m); free.append((d, KV[d], mul(m, x.filt[d]), n))
            elif len(k.shape_) == 1 and k.body is KV[0] and k.shape_[0] is n and x.filt[d] is ONE:          # the positions of a selection
                m = ren(k.filt[0], [(0, d)]); c = mul(c, m); free.append((d, KV[d], m, n))
            elif len(k.shape_) == 1 and k.shape_[0] is ONE and k.filt[0] is ONE:
                c = mul(c, delta(KV[d], subst(k.body, {Kn(0): ZERO}))); free.append((d, None, ONE, ONE))
            else:
                if k.filt[0] is not ONE: raise Unsupported("write through a filtered index array")
                t = fresh("w"); c = mul(c, anyp(t, k.shape_[0], delta(KV[d], subst(k.body, {Kn(0): var(t)})))); free.append((d, None, ONE, k.shape_[0]))
        else:
            p = P_(k)
            if isconst(p) and cval(p) < 0: p = add(n, p)
            c = mul(c, delta(KV[d], p))
        d += 1
    for e in range(d, len(x.shape_)): free.append((e, KV[e], x.filt[e], x.shape_[e]))
    # value: broadcast to the free axes
    o = len(free) - len(v.shape_)
    if o < 0:
        if all(q is ONE for q in v.shape_[:-len(free)] if True) and len(free): v = A(v.shape_[-len(free):], subst(v.body, {Kn(i): (ZERO if i < -o else KV[i + o]) for i in range(len(v.shape_))}), v.dt, tuple(ren(g, [(i - o, i)]) for i, g in enumerate(v.filt[-o:]))); o = 0
        elif not free and all(q is ONE for q in v.shape_): v = A((), subst(v.body, {Kn(i): ZERO for i in range(len(v.shape_))})); o = 0
        else: raise Unsupported("value with more dimensions than the target")
    s = {}
    for i in range(len(v.shape_)):
        dd, e, f, m = free[i + o]
        if v.shape_[i] is ONE and v.filt[i] is ONE: s[Kn(i)] = ZERO; continue
        if e is None: raise Unsupported("array assigned through an index array")
        fv = ren(v.filt[i], [(i, dd)])
        if f is not ONE and v.filt[i] is not ONE:
            if fv is not f: raise Unsupported("assignment between different selections")
        elif f is not ONE and f is not x.filt[dd] or v.filt[i] is not ONE and f is ONE: raise Unsupported("selection assigned to a different range")
        s[Kn(i)] = e
    x.set(where(c, subst(v.body, s), x.body))
    if v.dt == "f" and x.dt == "i" and not fromview: pass

# ------------------------------------------------------------ lists of symbolic length
class SymList(Sym):
    """n elements, the k-th given by fn(k) (k a Poly)"""
    def __init__(self, n, fn): self.n = n; self.fn = fn; self.ver = 0
    @property
    def domain(self): return _D[0]
    def isinstance_of(self, n): return n in ("list", "Iterable")
    def __getitem__(self, k):
        if isinstance(k, slice):
            a, m, st = sl(k, self.n)
            return SymList(m, (lambda i: self.fn(add(a, i))) if st == 1 else (lambda i: self.fn(a - i)))
        if isinstance(k, A) and k.shape_: raise Unsupported("list indexed by an array")
        p = P_(k)
        if isconst(p) and cval(p) < 0: p = add(self.n, p)
        return self.fn(p)
    def append(self, v):
        n, f = self.n, self.fn; self.adds or setattr(self, "head", (n, f)); self.n = add(n, ONE); self.ver += 1; self.adds = list(self.adds) + [SymList(ONE, lambda k: v)]
        self.fn = lambda k: v if k is n else self.domain.choose(k, n, f, v)
    def extend(self, o):
        o = aslist(o); n, f = self.n, self.fn; self.adds or setattr(self, "head", (n, f)); self.n = add(n, o.n); self.ver += 1; self.adds = list(self.adds) + [o]
        self.fn = lambda k: f(k) if isinstance(k, Poly) and positive(n - k) else self.domain.pick(k, n, f, o)
    def copy(self):
        r = SymList(self.n, self.fn); r.base, r.adds, r.unknown, r.head = self.base, self.adds, self.unknown, self.head; return r
    head = None     # length and elements before the first of these additions
    base = None; adds = (); unknown = False     # base: the loop variable this list started from in the current iteration; adds: what was appended since
    def __iter__(self):
        if isconst(self.n): return iter([self.fn(const(i)) for i in range(int(cval(self.n)))])
        raise Unsupported("iteration over a list of symbolic length outside a for loop")
    def __add__(self, o):
        r = self.copy(); r.extend(o); return r
    def __bool__(self): return self.domain.branch(notp(eq0(self.n)))
def aslist(o):
    if isinstance(o, SymList): return o
    if isinstance(o, (list, tuple)): return SymList(const(len(o)), lambda k, o=list(o): o[int(cval(k))] if isconst(k) else _D[0].select(o, k))
    if isinstance(o, SymRange): return SymList(o.n, o.fn)
    if isinstance(o, A): return SymList(o.dim(0), lambda k: o[A((), k, "i")])
    raise Unsupported(f"not a list: {core.short(o)}")
class SymRange(Sym):
    def __init__(self, n, fn): self.n = n; self.fn = fn
    @property
    def domain(self): return _D[0]
    def isinstance_of(self, n): return n == "range"
    def __reversed__(self): n, f = self.n, self.fn; return SymRange(n, lambda k: f(n - ONE - k))

class FrameT(Sym):
    """DataFrame / Series: data with row and column labels"""
    def __init__(self, data, index, columns=None, name=None): self.data = data; self.index_ = index; self.columns_ = columns; self.name = name
    @property
    def domain(self): return _D[0]
    def isinstance_of(self, n):
        n = n.split(".")[-1]
        return n == ("Series" if len(self.data.shape_) == 1 else "DataFrame")
    def wrap(self, data):
        if len(data.shape_) == len(self.data.shape_): return FrameT(data, self.index_, self.columns_, self.name)
        return data
    def __repr__(self): return f"Frame<{self.data}>"
    @property
    def values(self): return self.data
    @property
    def shape(self): return self.data.shape
    @property
    def ndim(self): return self.data.ndim
    def __bool__(self): raise ValueError("The truth value of a DataFrame is ambiguous")
    def __getattr__(self, a):
        if a.startswith("__"): raise AttributeError(a)
        h = _D[0].handlers.get("frame." + a)
        if h is not None:
            return h(self) if a in FRAMEPROPS else (lambda *x, **k: h(self, *x, **k))
        raise Unsupported(f"frame.{a}")
    def __getitem__(self, k):
        h = _D[0].handlers.get("frame.getitem")
        if h is None: raise Unsupported("frame[...]")
        return h(self, k)
    def __setitem__(self, k, v):
        h = _D[0].handlers.get("frame.setitem")
        if h is None: raise Unsupported("frame[...] = ")
        return h(self, k, v)
FRAMEPROPS = {"columns", "index", "iloc", "loc", "dtypes", "T", "size"}
def _fb(op):
    def f(self, o): return self.wrap(getattr(self.data, op)(o.data if isinstance(o, FrameT) else o))
    return f
for _op in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__", "__rtruediv__", "__pow__", "__lt__", "__gt__", "__le__", "__ge__", "__and__", "__or__"): setattr(FrameT, _op, _fb(_op))
FrameT.__eq__ = _fb("__eq__"); FrameT.__ne__ = _fb("__ne__"); FrameT.__hash__ = lambda s: id(s); FrameT.__invert__ = lambda s: s.wrap(~s.data); FrameT.__neg__ = lambda s: s.wrap(-s.data); FrameT.__abs__ = lambda s: s.wrap(abs(s.data))

class Rng:
    """a random generator: its state is a term; every draw is a function of the state"""
    def __init__(self, state): self.state = state
    def draw(self, name, *args):
        s = self.state; self.state = fun("rngnext", s, fun("call:" + name, *args)) if args else fun("rngnext", s); return s

# ------------------------------------------------------------ actions
class Act:
    def __init__(self, name, f, ok=lambda a: True, poly=None): self.name = name; self.f = f; self.ok = ok
    def __eq__(self, o): return isinstance(o, Act) and o.name == self.name
    def __hash__(self): return hash(self.name)
    def __call__(self, a):
        r = self.f(a)
        return r if isinstance(r, A) else A(a.shape_, r, a.dt, a.filt, flat=a.flat)
IDENT = Act("the same", lambda a: a.body)

# ------------------------------------------------------------ explorer
class Rec(dict):
    """contract table that remembers which contracts were used"""
    def __init__(self): super().__init__(); self.used = set()
    def get(self, k, *a):
        r = super().get(k, *a)
        if r is not None and isinstance(k, str): self.used.add(k)
        return r
    def __getitem__(self, k): self.used.add(k) if isinstance(k, str) else None; return super().__getitem__(k)
class TDomain:
    list_mut = True; maxrestarts = 150
    def __init__(self):
        self.values = {}; self.handlers = Rec(); self.results = {}; self.order = []; self.fn = "-"; self.queries = 0; self.canaries = 0
        self.acts = [IDENT]; self.forced = {}; self.kinds = {}; self.modset = {}; self.actof = {}; self.dimvar = set(); self.assumed = []; self.cuts = {}
        self.nosumm = set(); self.run = 1; self.known = {}; self.frozen_violation = []; self.rngs = []; self.restarts = 0; self.summ = {}; self.names = {}; self.gctx = (); self.learning = {}; self.curlearn = []
        import tcontracts; tcontracts.install(self)
    def __enter__(self):
        self.old = (_D[0], core.CURRENT[0]); _D[0] = self; core.CURRENT[0] = self; return self
    def __exit__(self, *a): _D[0], core.CURRENT[0] = self.old
    def unknown_call(self, path, a, k): raise Unsupported(f"no contract for {path}")
    nolearn = (); cutsize = 0; cutting = False; cutdiff = False; hooks = (); invs = (); heads = []; keeplists = False
    def cut(self, a):
        """a name for a large value (equal values, equal names); in the second run a value that corresponds to a named one by an action is that action of the name"""
        b = a.body; ks = [Kn(i) for i in range(len(a.shape_))]
        if self.cutting or a.flat is not None or not set(b.fv) <= set(ks): return b
        self.cutting = True
        try:
            key = (a.shape_, b, a.dt)
            r = self.cuts.get(key)
            if r is None:
                if self.run == 2:
                    for (sh, b1, dt), nm in list(self.cuts.items()):
                        if dt != a.dt or len(sh) != len(a.shape_): continue
                        x = A(sh, b1, dt, a.filt)
                        for c in self.acts:
                            if c.ok(x):
                                y = c(x)
                                if y.shape_ == a.shape_ and (y.body is b or not self.simp(y.body - b).t): r = c(A(sh, nm, dt, a.filt)).body; break
                        if r is not None: break
                    if r is None and self.cutdiff and a.dt == "f":
                        best = None
                        for (sh, b1, dt), nm in list(self.cuts.items()):
                            if dt != "f" or sh != a.shape_: continue
                            dif = self.simp(b - b1)
                            if 2 * dif.sz < b.sz and (best is None or dif.sz < best[0].sz): best = (dif, nm)
                        if best: r = add(best[1], best[0])
                        if r is None and b.sz < 3 * self.cutsize: return b        # the first run may have kept its counterpart in full
                if r is None:
                    nm = f"value{len(self.cuts)}"; ar = KV[:len(a.shape_)]
                    r = of(mk("bool", nm, *ar)) if a.dt == "b" else sym(nm, *ar, pos=positive(b), nan=nanable(b), integer=a.dt == "i")
                    if not a.shape_ and nonneg(b) and a.dt == "i": setlow(r, 0)
                self.cuts[key] = r
            return r
        finally: self.cutting = False
    # symbols
    def int(self, name, lo=1): p = sym(name, pos=lo > 0, integer=True); setlow(p, lo); return A((), p, "i")
    def real(self, name, pos=False): return A((), sym(name, pos=pos), "f")
    def array(self, name, *shape, dt="f", nan=False, pos=False):
        sh = [P_(s) for s in shape]
        return A(sh, sym(name, *KV[:len(sh)], nan=nan, pos=pos), dt)
    def force(self, cond, value, why=""):
        """a stated assumption: this condition has this truth value"""
        p = P_(cond)
        if isconst(p): return
        self.forced[p] = value
        if why: self.assumed.append(why)
    # branching
    def branch(self, c):
        if isconst(c): return cval(c) != 0
        v = self.lookup(c)
        if v is not None: return v
        c = self.simp(c)
        if isconst(c): return cval(c) != 0
        neg = False
        k = c
        if k in self.known: return self.known[k]
        nk = ONE - k
        if nk in self.known: return not self.known[nk]
        if self.pos < len(self.dec): v = self.dec[self.pos]
        else: v = True; self.dec = self.dec + [True]; self.pending.append(self.dec[:-1] + [False])
        self.pos += 1; self.known[k] = v
        self.learn(k, v); self.trail.append((k, v)); return v
    def learn(self, k, v):
        if len(k.t) == 1 and len(k.t[0][0]) == 1: self.atomv[k.t[0][0][0][0]] = v
        elif v and len(k.t) == 1:
            for i, _ in k.t[0][0]:
                if tdom._tab[i].kind in IDEM: self.atomv[i] = True
        elif len(k.t) == 2:
            n = ONE - k
            if len(n.t) == 1 and len(n.t[0][0]) == 1 and n.t[0][1] == 1: self.atomv[n.t[0][0][0][0]] = not v
            elif not v and len(n.t) == 1 and n.t[0][1] == 1:
                for i, _ in n.t[0][0]:
                    if tdom._tab[i].kind in IDEM: self.atomv[i] = True
    def lookup(self, c):
        for q, v in self.forced.items():
            if q is c: return v
            if (ONE - q) is c: return not v
        return None
    def simp(self, c):
        """use what is known on the path"""
        av = dict(self.atomv)
        for q, v in self.forced.items():
            if len(q.t) == 1 and len(q.t[0][0]) == 1: av[q.t[0][0][0][0]] = v
            else:
                n = ONE - q
                if len(n.t) == 1 and len(n.t[0][0]) == 1: av[n.t[0][0][0][0]] = not v
        out = {}
        for m, co in c.t:
            keep = []; z = False
            for i, e in m:
                if i in av:
                    if not av[i]: z = True; break
                else: keep.append((i, e))
            if not z: out[tuple(keep)] = out.get(tuple(keep), 0) + co
        return poly(out)
    def bad(self, why): raise Unsupported(why)
    def choose(self, k, n, f, v):
        if isinstance(k, Poly) and positive(n - k): return f(k)
        return self.mix(eq0(k - n), v, f(k))
    def pick(self, k, n, f, o):
        return self.mix(gt0(n - k), f(k), o.fn(k - n))
    def select(self, items, k):
        r = items[-1]
        for i in range(len(items) - 2, -1, -1): r = self.mix(eq0(k - const(i)), items[i], r)
        return r
    def mix(self, c, a, b):
        """the value a where c holds, else b"""
        if a is b: return a
        if isconst(c): return a if cval(c) else b
        if isinstance(a, (tuple, list)): return type(a)(self.mix(c, x, y) for x, y in zip(a, b))
        if a is None and b is None: return None
        if isobj(a) and isobj(b) and type(a) is type(b):
            r = copy.copy(a)
            for k in a.__dict__: r.__dict__[k] = self.mix(c, a.__dict__[k], b.__dict__.get(k))
            return r
        if isinstance(a, (str, types.FunctionType, type)) and a == b: return a
        x, y = arr(a), arr(b)
        if x.shape_ == y.shape_ and x.filt == y.filt: return A(x.shape_, where(c, x.body, y.body), x.dt, x.filt)
        if len(x.shape_) == len(y.shape_) == 1: return A((where(c, x.shape_[0], y.shape_[0]),), where(c, x.body, y.body), x.dt)
        raise Unsupported("merging values of different shapes")
    def write(self, x):
        if x.frozen or x.root.frozen: self.frozen_violation.append(x)
    # exploring
    def explore(self, fn, f, limit=3000):
        self.fn = fn; n = 0
        while True:
            stack = [[]]; saved = (dict(self.results), list(self.order))
            try:
                late = None; self.learning = {}
                while stack:
                    self.dec = stack.pop(); self.pos = 0; self.pending = stack; self.known = {}; self.atomv = {}; self.trail = []; self.frozen_violation = []; self.curlearn = []; self.innerlearn = False; self.gctx = ()
                    n += 1
                    if n > limit: raise Unsupported(f"more than {limit} paths")
                    try:
                        f()
                        self.spoil("left by break or return")
                    except PathEnd:
                        if self.curlearn and self.innerlearn: [self.learning[ck].update(retry=True) for ck in self.curlearn]
                        else: self.spoil("path ended inside")
                    except Unsupported as e:
                        self.spoil(f"unsupported: {e}")
                        if DBG: print("UNSUP", bool(self.curlearn), e, "\n", "".join(traceback.format_tb(e.__traceback__)[-9:]) if DBG == "2" else "")
                        late = e if late is None or 'unbound' in str(late) or 'Undef' in str(late) else late             # another path may still teach the loops' kinds and restart
                        self.nlate = getattr(self, "nlate", 0) + 1
                        if self.nlate > 200: raise
                if self.learning: self.summarise()
                if late: raise late
                return n
            except Restart:
                self.restarts += 1; self.results, self.order = saved
                sig = self.signature()
                if sig != self.sig0: self.summ.clear(); self.sig0 = sig         # other loop variables or relations: closed forms found under the old ones are void
                if self.restarts > self.maxrestarts: raise Unsupported("loop relations do not stabilise")
    sig0 = None
    def signature(self):
        return (tuple(sorted((repr(k), len(v)) for k, v in self.kinds.items())), tuple(sorted((repr(k), v.name if isinstance(v, Act) else repr(v)) for k, v in self.actof.items() if isinstance(v, Act))), len(self.dimvar), tuple(sorted((k, len(v)) for k, v in self.modset.items())))
    def spoil(self, why):
        """a path left the loop being learned: no closed form for it; the loops around it are tried again once this is settled"""
        if not self.curlearn: return
        self.learning[self.curlearn[-1]]["bad"] = self.learning[self.curlearn[-1]]["bad"] or why
        for ck in self.curlearn[:-1]: self.learning[ck]["retry"] = True
    def record(self, name, status, detail="", backend="normal form"):
        key = (self.fn, name)
        if key in self.results:
            if status != "proved" and self.results[key]["status"] == "proved": self.results[key].update(status=status, detail=detail)
            return
        self.results[key] = dict(name=name, function=self.fn, status=status, backend=backend, sec=round(time.time() - getattr(self, "tq", time.time()), 4), detail=detail)
        self.order.append(key); self.tq = time.time()
    def canary(self): return True
    def prove_same(self, name, got, want):
        ok, why = self.same(got, want)
        self.queries += 1
        self.record(name, "proved" if ok else "failed", "" if ok else f"{why}\npath: {[(show(k)[:200], v) for k, v in self.trail]}")
        return ok
    def same(self, a, b):
        """equal normal forms"""
        if a is b: return True, ""
        if isinstance(a, FrameT) or isinstance(b, FrameT):
            if not (isinstance(a, FrameT) and isinstance(b, FrameT)): return False, "frame against array"
            return self.same(a.data, b.data)
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if len(a) != len(b): return False, "lengths"
            for x, y in zip(a, b):
                r = self.same(x, y)
                if not r[0]: return r
            return True, ""
        if isinstance(a, dict) and isinstance(b, dict):
            if set(a) != set(b): return False, f"keys {set(a) ^ set(b)}"
            for k in a:
                r = self.same(a[k], b[k])
                if not r[0]: return False, f"{k}: {r[1]}"
            return True, ""
        if isinstance(a, SymList) or isinstance(b, SymList):
            a, b = aslist(a), aslist(b)
            if a.n is not b.n: return False, f"list lengths {show(a.n)} / {show(b.n)}"
            if not a.n.t: return True, ""
            if a.adds and b.adds and len(a.adds) == len(b.adds) and a.head[0] is b.head[0] and all(x.n is y.n for x, y in zip(a.adds, b.adds)):
                for x, y in [(SymList(*a.head), SymList(*b.head))] + list(zip(a.adds, b.adds)):
                    r = self.same(x, y)
                    if not r[0]: return r
                return True, ""
            k = KV[6]; return self.same(a.fn(k), b.fn(k))
        if isobj(a) and type(a) is type(b):
            return self.same({k: v for k, v in a.__dict__.items() if k not in SKIP}, {k: v for k, v in b.__dict__.items() if k not in SKIP})
        if isinstance(a, Rng) and isinstance(b, Rng): return (a.state is b.state), "random state"
        if a is None or b is None or isinstance(a, (str, type, types.FunctionType, core.Lib)): return (a is b or a == b), f"{a!r} / {b!r}"
        if callable(a) and not isinstance(a, Sym): return (getattr(a, "__qualname__", a) == getattr(b, "__qualname__", b)), f"{a!r} / {b!r}"
        try: x, y = arr(a), arr(b)
        except Unsupported: return (a == b) is True, f"{a!r} / {b!r}"
        if len(x.shape_) != len(y.shape_) or any(p is not q for p, q in zip(x.shape_, y.shape_)): return False, f"shapes {tuple(map(show, x.shape_))} / {tuple(map(show, y.shape_))}"
        if any(self.simp(p) is not self.simp(q) for p, q in zip(x.filt, y.filt)): return False, f"selections {tuple(map(show, x.filt))} / {tuple(map(show, y.filt))}"
        if x.body is y.body: return True, ""
        m = x.filt
        bx, by = x.body, y.body
        for f in m:
            if f is not ONE: bx, by = mul(f, bx), mul(f, by)
        dif = self.simp(bx - by)
        if dif.t: dif = dnorm(dif)
        return (not dif.t), f"difference {show(dif)[:int(os.environ.get("TBN", "900"))]}"
    def corr(self, v, act, e):
        """v = act(e); every action here has positive slope, so it fixes an infinite constant"""
        return (v.body is e.body and v.body in (P_(float("inf")), P_(float("-inf"))) and v.shape_ == e.shape_) or self.same(v, act(e))[0]
    # relational
    def relate(self, run1, run2, compare):
        """one path: both runs, then the comparison"""
        self.run = 1; self.loopn = {1: 0, 2: 0}; self.lc = {1: 0, 2: 0}; self.entries = {}; self.backs = {}; self.stopped = None; self.rngc = 0
        def go(f):
            try: return ("ok", f())
            except Stop as s: return ("stop", s.args[0])
            except (Unsupported, PathEnd, Restart): raise
            except Exception as e:
                if isinstance(e, CODE_ERRORS): return ("raise", type(e).__name__, e)
                raise
        r1 = go(run1)
        self.run = 2
        r2 = go(run2)
        if r1[0] != r2[0] or (r1[0] == "raise" and r1[1] != r2[1]):
            self.record("both runs take the same course", "failed", f"run 1: {r1[:2]}, run 2: {r2[:2]}\npath: {[(show(k)[:160], v) for k, v in self.trail]}"); return
        if r1[0] == "ok": compare(r1[1], r2[1])
        elif r1[0] == "raise" and r1[1] in ("AttributeError", "TypeError", "IndexError", "KeyError", "NameError", "UnboundLocalError"):
            raise Unsupported(f"{r1[1]} in the symbolic run: {r1[2]}\n" + "".join(traceback.format_tb(r1[2].__traceback__)[-2:]))
        elif r1[0] == "raise": self.record(f"both runs raise {r1[1]} alike", "proved")
    def summarise(self):
        """every loop met for the first time in this pass gets its closed form, or is left to the lockstep rule"""
        for ck, L in self.learning.items():
            if L.get("retry") and not L["bad"]: continue
            r = None
            if not L["bad"] and L["paths"]:
                try: r = closed_form(self, L)
                except Unsupported as e: L["bad"] = f"{e}"
            self.summ[ck] = r if r is not None else "no"
            DBG and print("SUMM", ck[0], ck[1:3], "->", "closed form" if r is not None else f"lockstep ({L['bad']})")
        raise Restart
    # hooks
    def iter(self, it):
        if isinstance(it, (A, FrameT)):
            if isinstance(it, FrameT): raise Unsupported("iteration over a frame")
            if not it.shape_: raise Unsupported("iteration over a scalar")
            if isconst(it.shape_[0]) and it.filt[0] is ONE: return list(it)
            if it.filt[0] is not ONE:
                w = self.handlers["numpy.where"](A(it.shape_[:1], it.filt[0], "b"))[0]
                r = SymRange(it.dim(0), lambda k: A(it.shape_, it.body, it.dt, (ONE,) + it.filt[1:])[A((), subst(w.body, {Kn(0): k}), "i")])
                if len(it.shape_) == 1: r.alt = SymRange(it.shape_[0], lambda k: A((), subst(it.body, {Kn(0): k}), it.dt)); r.alt.cond = lambda k: subst(it.filt[0], {Kn(0): k})     # the same loop as: for k in range(n): if selected(k)
                return r
            return SymRange(it.shape_[0], lambda k: it[A((), k, "i")])
        if isinstance(it, SymList):
            if isconst(it.n): return list(it)
            return SymRange(it.n, it.fn)
        return it
    def conc(self, it): return not isinstance(it, Sym)
    def loop(self, fn, k, it): return TLoop(self, fn, k, it)
    def wloop(self, fn, k):
        c = self.handlers.get(("while", fn, k))
        return TLoop(self, fn, k, None)
    def tick(self, fn, k): pass
    def listcomp(self, f, it, cond):
        it = self.iter(it)
        if self.conc(it):
            if cond is None: return [f(x) for x in it]
            return [f(x) for x in it if cond(x)]
        if cond is not None: raise Unsupported("filtered comprehension over a symbolic range")
        return self.comp(it.n, lambda k: f(it.fn(k)))
    def comp(self, n, f):
        """[f(k) for k < n]; random generators advance by an unknown number of draws per element"""
        self.lc[self.run] += 1; occ = self.lc[self.run]
        ent = [(r, r.state) for r in self.rngs]
        t = fresh("k"); 
        for r, s in ent: r.state = fun("rngat", s, const(occ), var(t))
        v = self.guarded(lambda: f(var(t)))
        for r, s in ent:
            if r.state is not fun("rngat", s, const(occ), var(t)): r.state = fun("rngafter", s, const(occ), n)
            else:
                r.state = s; v = mapleaves(v, lambda a: a)
        return SymList(n, lambda k: at(v, {t: k}))
    def guarded(self, f):
        """f under every outcome of its own branches, merged into one value"""
        outer = (self.dec, self.pos, self.pending, dict(self.known), dict(self.atomv), list(self.trail))
        ctr = (dict(self.loopn), dict(self.lc))
        res = []; stack = [[]]; outer_g = self.gctx; ended = False; learn0 = list(self.curlearn)
        try:
            while stack:
                self.dec = stack.pop(); self.pos = 0; self.pending = stack; self.known = dict(outer[3]); self.atomv = dict(outer[4]); self.trail = []; self.loopn = dict(ctr[0]); self.lc = dict(ctr[1])
                self.inguard = getattr(self, "inguard", 0) + 1
                self.gctx = outer_g + (tuple(outer[0][:outer[1]]),)
                try: v = f()
                except PathEnd: ended = True; self.curlearn = list(learn0); continue
                except Stop: raise Unsupported("a loop that needs a relation, inside an element function")
                finally: self.inguard -= 1; self.gctx = outer_g
                c = ONE
                for k, b in self.trail: c = mul(c, k if b else notp(k))
                res.append((c, v))
                if len(res) > 64: raise Unsupported("too many paths in an element function")
        finally: self.dec, self.pos, self.pending, self.known, self.atomv, self.trail = outer
        if ended: raise PathEnd
        v = res[-1][1]
        for c, w in res[-2::-1]: v = self.mix(c, w, v)
        return v
    def builtins(self):
        import tcontracts; return tcontracts.builtin_table(self)

CODE_ERRORS = (ValueError, TypeError, AttributeError, IndexError, KeyError, ZeroDivisionError, NameError, NotImplementedError, RuntimeError)
SKIP = {"logger", "verbosity"}
OPAQUE = ()      # classes whose objects are not looked into
def isobj(a):
    return hasattr(a, "__dict__") and not getattr(a, "_opaque", False) and not isinstance(a, (TDomain, core.World, Sym, type, types.FunctionType, types.ModuleType, types.MethodType, core.Lib, core.NullLogger, Poly, Atom, Rng, BaseException)) and not callable(a)
def at(v, s):
    return mapleaves(v, lambda a: A([subst(d, s) for d in a.shape_], subst(a.body, s), a.dt, [subst(f, s) for f in a.filt], flat=None if a.flat is None else subst(a.flat, s)))
def mapleaves(v, g):
    if isinstance(v, A): return g(v)
    if isinstance(v, (list, tuple)): return type(v)(mapleaves(x, g) for x in v) if type(v) in (list, tuple) else v
    if isinstance(v, dict): return {k: mapleaves(x, g) for k, x in v.items()}
    if isinstance(v, SymList): n = g(A((), v.n, "i")).body; return SymList(n, lambda k: mapleaves(v.fn(k), g))
    if isinstance(v, FrameT): return FrameT(g(v.data), v.index_, v.columns_, v.name)
    if isobj(v):
        r = copy.copy(v); r.__dict__.update({k: mapleaves(x, g) for k, x in v.__dict__.items()}); return r
    return v

# ------------------------------------------------------------ loops
class TLoop:
    def __init__(self, d, fn, k, it):
        self.d = d; self.key = (fn, k); self.it = it; d.loopn[d.run] += 1; self.occ = (d.loopn[d.run],)
        self.nm = f"{fn.split(':')[-1]} loop {k + 1}"
    def val(self, path):
        """value at a learned path from the locals at entry"""
        v = self.loc.get(path[0], UNDEF)
        for a in path[1:]:
            if v is UNDEF: return UNDEF
            v = v.__dict__.get(a, UNDEF) if hasattr(v, "__dict__") else UNDEF
        return v
    def enter(self, loc, names):
        d = self.d; self.names = names; self.loc = dict(loc); self.mode = "lock"
        self.snapshot = self.snap(loc)
        mods = sorted(d.modset.get(self.key, ())); self.mods = mods
        paths = [((n,), loc.get(n, UNDEF)) for n in names] + [(p, self.val(p)) for p in mods if p[0] in loc]
        if self.it is not None and self.key not in d.nosumm and not (self.nolearn(d)):
            ck = (self.key, d.run, self.occ, d.gctx, tuple(d.dec[:d.pos]), tuple(c[2] for c in d.curlearn)); s = d.summ.get(ck)     # a closed form belongs to one environment
            if s is None: return self.learn(ck, loc, names, mods, paths)
            if s != "no": return self.apply(s, loc, names, mods, paths)
        # distinct objects only once
        self.h = {}
        if d.run == 1: d.entries[self.occ] = (self.key, {p: v for p, v in paths}, {}); store = d.entries[self.occ]
        else:
            store = d.entries.get(self.occ)
            if store is None or store[0] != self.key:
                d.record("both runs take the same course", "failed", f"run 2 reaches {self.nm}, run 1 did not; path: {[(show(k)[:160], v) for k, v in d.trail]}"); raise PathEnd
        if self.it is not None:
            n = self.it.n
            if d.run == 1: store[2]["n"] = n
            elif store[2]["n"] is not n and d.simp(store[2]["n"]) is not d.simp(n):
                d.record(f"{self.nm}: same number of iterations", "failed", f"{show(store[2]['n'])} / {show(n)}"); raise PathEnd
        self.store = store; out = {}
        self.kept = {}
        for p, v in paths:
            if d.keeplists and len(p) == 1 and isinstance(v, (list, SymList)) and (self.key, p) not in d.listchanged:     # a list the loop only changes on its way out
                out[p] = v; self.kept[p] = (v, len(v) if isinstance(v, list) else v.ver); continue
            h = self.havoc(p, v)
            out[p] = h
        for fs in d.invs:
            if all((k,) in out and (k,) not in self.kept for k in fs):
                for k, f in fs.items():
                    if loc.get(k, UNDEF) is not UNDEF: d.prove_same(f"invariant at entry of {self.nm}: {k}", loc[k], f(loc))
                L = {**loc, **{n: out[(n,)] for n in names}}
                for k, f in fs.items():
                    out[(k,)] = L[k] = f(L)
                    if isinstance(L[k], SymList): L[k].base = (self.key, (k,))
        self.hv = {p: (h.copy() if isinstance(h, SymList) else h) for p, h in out.items()}
        self.hv0 = {(p[0] if len(p) == 1 else p): (A(h.shape_, h.body, h.dt, h.filt, flat=h.flat) if isinstance(h, A) else h) for p, h in self.hv.items()}; d.heads.append(self.hv0)
        for p in mods:
            if p not in out: continue
            h = out[p]
            o = self.val(p)
            if isinstance(o, A) and isinstance(h, A) and len(p) >= 1 and p[0] in loc and (len(p) > 1 or p[0] not in names):
                o.body = h.body; o.ver += 1; o.shape_ = h.shape_; o.filt = h.filt; out[p] = o
                continue
            if isinstance(o, Rng): o.state = h.state; continue
            if len(p) > 1:
                obj = self.val(p[:-1]) if len(p) > 2 else loc[p[0]]
                setattr(obj, p[-1], h)
        self.snapshot2 = self.snap({**loc, **{n: out[(n,)] for n in names}})
        self.k = sym(f"it{self.occ}", integer=True); setlow(self.k, 0)
        if self.it is not None: d.forced[gt0(self.it.n - self.k)] = True
        return tuple(out[(n,)] for n in names)
    # arbitrary values
    def tmpl(self, p): return self.d.kinds.get((self.key, p), [])
    def havoc(self, p, v):
        d = self.d; ks = self.tmpl(p)
        cands = list(ks)
        if v is not UNDEF and not any(kind(v) == kind(t) for t in cands): cands.insert(0, v)
        elif v is not UNDEF: cands = [v] + [t for t in cands if kind(t) != kind(v)]
        if not cands: return UNDEF
        if v is UNDEF and len(cands) == 1 and p[0] in self.names and len(p) == 1 and False: return UNDEF
        # which kind of value it is, is decided by a free choice common to both runs
        for t in cands[:-1]:
            if d.branch(of(mk("bool", f"kind{self.occ}{p}{kind(t)}"))): return self.fresh(p, t, v)
        return self.fresh(p, cands[-1], v)
    def nmof(self, p): return "h" + str(self.occ) + ".".join(map(str, p))
    def fresh(self, p, t, v):
        """arbitrary value like t at path p; v is the value at entry"""
        d = self.d; st = self.store
        if isinstance(t, A) or isinstance(t, (bool, int, float)) and not isinstance(t, str) or (type(t).__module__ == "numpy" and getattr(t, "ndim", 1) == 0):
            a = arr(t) if not isinstance(t, A) else t
            return self.leaf(p, a, v if isinstance(v, A) or v is UNDEF or v is None else (arr(v) if isinstance(v, (bool, int, float)) or type(v).__module__ == "numpy" else v))
        if t is None or isinstance(t, (str, type, types.FunctionType, types.MethodType, core.Lib, core.NullLogger)): return t
        if isinstance(t, Rng):
            r = t if isinstance(v, Rng) else Rng(None)
            e = st[2].setdefault(("rng", p), v.state if isinstance(v, Rng) else None)
            if d.run == 2 and isinstance(v, Rng) and e is not v.state: d.record(f"{self.nm}: random state {'.'.join(p)} agrees at entry", "failed", f"{show(e)[:300]} / {show(v.state)[:300]}")
            h = Rng(sym(self.nmof(p))); return h
        if isinstance(t, FrameT):
            x = self.fresh(p + ("data",), t.data, v.data if isinstance(v, FrameT) else UNDEF); return FrameT(x, t.index_, t.columns_, t.name)
        if isinstance(t, (list, SymList)):
            nm = self.nmof(p)
            n = sym("len:" + nm, integer=True); setlow(n, 0)
            l = aslist(t) if not isinstance(t, list) or True else t
            el = d.kinds.get((self.key, p + ("[]",)), [])
            e = st[2].setdefault(("list", p), v)
            if d.run == 2:
                # entry lists must correspond elementwise; empty lists do
                le, lv = aslist(e) if e is not UNDEF else None, aslist(v) if v is not UNDEF else None
                if le is not None and lv is not None and not (le.n is lv.n): d.record(f"{self.nm}: list {'.'.join(p)} agrees at entry", "failed", f"lengths {show(le.n)} / {show(lv.n)}")
            if not el:
                if isinstance(t, list) and not t or getattr(t, "unknown", False):
                    u = SymList(n, lambda k: d.bad("element of a list of unknown content")); u.unknown = True; u.base = (self.key, p); return u
                x0 = t[0] if isinstance(t, list) else t.fn(var(("e", nm)))
                if not isinstance(t, list) or t:
                    d.kinds[(self.key, p + ("[]",))] = [x0]; raise Restart
            el = el[0]
            ev = UNDEF
            if v is not UNDEF and not (isinstance(v, list) and not v) and not (isinstance(v, SymList) and (not v.n.t or getattr(v, "unknown", False))): ev = aslist(v).fn(KV[6])
            k6 = fresh("e"); x = self.fresh_elem(p + ("[]",), el, ev)
            r = SymList(n, lambda k: at(x, {Kn(6): k})); r.base = (self.key, p); return r
        if isinstance(t, tuple):
            vs = v if isinstance(v, tuple) and len(v) == len(t) else [UNDEF] * len(t)
            return tuple(self.fresh(p + (str(i),), x, y) for i, (x, y) in enumerate(zip(t, vs)))
        if isinstance(t, dict): return {k: self.fresh(p + (str(k),), x, v.get(k, UNDEF) if isinstance(v, dict) else UNDEF) for k, x in t.items()}
        if isobj(t):
            r = copy.copy(t)
            for a, x in t.__dict__.items():
                if a in SKIP: continue
                r.__dict__[a] = self.fresh(p + (a,), x, v.__dict__.get(a, UNDEF) if isobj(v) else UNDEF)
            return r
        if callable(t) or getattr(t, "_opaque", False): return t
        raise Unsupported(f"loop variable {'.'.join(p)} of an unsupported kind: {core.short(t)}")
    elem = False
    def fresh_elem(self, p, t, v):
        self.elem = True
        try: return self.fresh(p, t, v)
        finally: self.elem = False
    def leaf(self, p, a, v):
        """array variable: arbitrary in run 1; the corresponding value in run 2"""
        d = self.d; st = self.store; nm = self.nmof(p); ex = (KV[6],) if self.elem else ()
        if d.run == 1:
            st[2][("entry", p)] = v
            sh = list(a.shape_)
            for i in range(len(sh)):
                if (self.key, p, i) in d.dimvar: sh[i] = sym(f"dim{i}:" + nm, *ex, integer=True, pos=True)
            fl = list(a.filt)
            for i in range(len(sh)):
                if fl[i] is not ONE or (self.key, p, i) in d.dimvar and False: fl[i] = ONE; sh[i] = sym(f"dim{i}:" + nm, *ex, integer=True, pos=True)
            if a.flat is not None: raise Unsupported("loop variable that is a selection")
            args = ex + tuple(KV[:len(sh)])
            body = of(mk("bool", nm, *args)) if a.dt == "b" else sym(nm, *args, nan=a.body is not None and nanable(a.body), integer=a.dt == "i" and self.intok(p))
            h = A(sh, body, a.dt, fl); st[2][("h", p)] = h; return A(h.shape_, h.body, h.dt, h.filt)
        h1 = st[2].get(("h", p))
        if h1 is None: raise Unsupported(f"{self.nm}: {'.'.join(p)} has different kinds in the two runs")
        e1 = st[2][("entry", p)]
        act = d.actof.get((self.key, p))
        if act is None:
            if isinstance(e1, A) and isinstance(v, A):
                for c in d.acts:
                    if c.ok(e1) and d.corr(v, c, e1): act = c; break
                if act is None:
                    d.record(f"{self.nm}: {'.'.join(p)} corresponds at entry", "failed", f"{show(e1.body)[:400]}\n  / {show(v.body)[:400]}"); raise PathEnd
            else: act = IDENT
        elif isinstance(e1, A) and isinstance(v, A) and not d.corr(v, act, e1):
            d.record(f"{self.nm}: {'.'.join(p)} corresponds at entry ({act.name})", "failed", f"{show(e1.body)[:400]}\n  / {show(v.body)[:400]}")     # goes on: an enclosing loop may learn the right relation and restart
        st[2][("act", p)] = act
        d.record(f"{self.nm}: {'.'.join(p)} corresponds at entry", "proved")
        if not act.ok(h1): raise Unsupported("action on a value of another shape")
        return act(h1)
    def intok(self, p): return (self.key, p) not in self.d.dimvar
    def more(self):
        if self.mode == "learn": return True
        if self.mode == "sum": return False
        return self.d.branch(of(mk("bool", f"more{self.occ}")))
    def item(self): return self.it.fn(self.k)
    def nolearn(self, d): return self.key in d.nolearn or any(isinstance(q, str) and str(self.key).find(q) >= 0 for q in d.nolearn)
    # ---- the state after one iteration
    def snap(self, loc):
        out = {}
        def walk(v, p, dep):
            if isinstance(v, A): out[p] = (v, ("ver", v.ver)); return
            if isinstance(v, Rng): out[p] = (v, ("state", v.state.id)); return
            if isinstance(v, SymList): out[p] = (v, ("ver", v.ver)); return
            if isinstance(v, list): out[p] = (v, ("len", len(v))); return
            if isinstance(v, dict): out[p] = (v, ("len", len(v))); return
            if isobj(v) and dep < 3:
                out[p] = (v, ("attrs", tuple(sorted((k, id(x)) for k, x in v.__dict__.items())), dict(v.__dict__)))
                for k, x in v.__dict__.items(): walk(x, p + (k,), dep + 1)
        for n, v in loc.items():
            if n.startswith("L") and n.endswith("__") or n in ("t__", "o__", "it__"): continue
            walk(v, (n,), 0)
        for i, r in enumerate(self.d.rngs): pass
        return out
    def learn(self, ck, loc, names, mods, paths):
        """one iteration from an arbitrary state, to find a closed form"""
        d = self.d; self.mode = "learn"; self.ck = ck; self.it = getattr(self.it, "alt", None) or self.it
        L = d.learning.setdefault(ck, dict(paths=[], bad=None, key=self.key)); self.L = L; d.curlearn = d.curlearn + [ck]
        self.kv = L["kv"] = d.names.setdefault(ck, fresh("k")); self.k = var(self.kv); self.hs = {}; out = {}; ext = []     # the same names on every path
        for p, v in paths:
            h = self.arb(p, v)
            if isinstance(v, Rng): continue
            out[p] = h
        for r in d.rngs:
            nm = d.names.setdefault((ck, d.rngs.index(r)), fresh("rs")); self.hs[("rng", d.rngs.index(r))] = (r, r.state, nm); r.state = var(nm)
        for p in mods:
            if p not in out: continue
            o = self.val(p); h = out[p]
            if isinstance(o, A) and isinstance(h, A) and (len(p) > 1 or p[0] not in names): o.body = h.body; o.ver += 1; out[p] = o; continue
            if len(p) > 1: setattr(self.val(p[:-1]) if len(p) > 2 else loc[p[0]], p[-1], h)
        self.hv = out; self.t0 = len(d.trail)
        L.update(n=self.it.n, hs=self.hs)
        self.snapshot2 = self.snap({**loc, **{n: out[(n,)] for n in names}})
        d.forced[gt0(self.it.n - self.k)] = True
        self.sel = self.it.cond(self.k) if getattr(self.it, "cond", None) else None
        if self.sel is not None:
            d.forced[self.sel] = True
            if not L["paths"]: L["skip"] = (notp(self.sel), {p: (A(h.shape_, h.body, h.dt, h.filt) if isinstance(h, A) else h) for p, h in out.items() if self.bound(p)})
        return tuple(out[(n,)] for n in names)
    sel = None
    def bound(self, p): return len(p) > 1 or self.loc.get(p[0], UNDEF) is not UNDEF
    def arb(self, p, v):
        nm = "l" + str(self.occ) + ".".join(map(str, p)) + f"r{self.d.run}"
        if isinstance(v, (bool, int, float)) or type(v).__module__ == "numpy" and getattr(v, "ndim", 1) == 0: v = arr(v)
        if isinstance(v, A):
            if v.flat is not None: raise Unsupported("loop variable that is a selection")
            sh = tuple(KV[:len(v.shape_)])
            b = of(mk("bool", nm, *sh)) if v.dt == "b" else sym(nm, *sh, nan=nanable(v.body), integer=v.dt == "i")
            self.hs[p] = ("A", b); h = A(v.shape_, b, v.dt, v.filt); return h
        if isinstance(v, (list, SymList)):
            n = sym("len:" + nm, integer=True); setlow(n, 0); self.hs[p] = ("list", n)
            u = SymList(n, lambda k: self.d.bad("element of a list that grows in the loop")); u.unknown = True; u.base = (self.key, p); return u
        if isinstance(v, FrameT): return FrameT(self.arb(p + ("data",), v.data), v.index_, v.columns_, v.name)
        self.hs[p] = ("id", v); return v
    def apply(self, s, loc, names, mods, paths):
        d = self.d; self.mode = "sum"; out = {}
        for r, st in s["rng"]: r.state = st
        for p, v in paths:
            if isinstance(v, Rng): continue
            out[p] = s["vals"][p](v)
        for p in mods:
            if p not in out: continue
            o = self.val(p); h = out[p]
            if isinstance(o, A) and isinstance(h, A) and (len(p) > 1 or p[0] not in names): d.write(o); o.set(h.body); o.shape_ = h.shape_; o.filt = h.filt; continue
            if len(p) > 1: setattr(self.val(p[:-1]) if len(p) > 2 else loc[p[0]], p[-1], h)
        return tuple(out[(n,)] for n in names)
    def backlearn(self, loc):
        d = self.d; vals = {}
        for n in self.names: vals[(n,)] = loc.get(n, UNDEF)
        for p in self.mods:
            if p[0] not in loc and p[0] not in self.loc: continue
            o = self.hv.get(p)
            if isinstance(o, A) and len(p) == 1: vals[p] = o; continue
            v = self.loc[p[0]]
            for a in p[1:]: v = v.__dict__.get(a, UNDEF) if hasattr(v, "__dict__") else UNDEF
            vals[p] = v
        c = ONE
        for k, b in d.trail[self.t0:]: c = mul(c, k if b else notp(k))
        if self.sel is not None: c = mul(c, self.sel)
        rs = {q: r[0].state for q, r in self.hs.items() if q[0] == "rng"}
        def cp(v):
            if isinstance(v, A): return A(v.shape_, v.body, v.dt, v.filt, flat=v.flat)
            if isinstance(v, SymList): return v.copy()
            return v
        self.L["paths"].append((c, {p: cp(v) for p, v in vals.items()}, rs)); d.curlearn = [x for x in d.curlearn if x != self.ck]; d.innerlearn = True
        raise PathEnd
    def back(self, loc):
        d = self.d
        # anything changed that is not accounted for?
        new = set()
        known = set(self.mods) | {(n,) for n in self.names}
        for p, (v, sig) in self.snapshot2.items():
            if (p[0],) in known and len(p) == 1 and isinstance(v, (list, SymList)): continue
            if isinstance(v, A): now = ("ver", v.ver)
            elif isinstance(v, Rng): now = ("state", v.state.id)
            elif isinstance(v, SymList): now = ("ver", v.ver)
            elif isinstance(v, (list, dict)): now = ("len", len(v))
            else:
                for k, x in v.__dict__.items():
                    if sig[2].get(k, UNDEF) is not x and (p + (k,)) not in known and (p[0] not in self.names or len(p) > 1 or True):
                        if (p[0],) in known and p[0] in self.names: continue
                        new.add(p + (k,))
                continue
            if now != sig and p not in known:
                if (p[0],) in known and p[0] in self.names: continue       # part of a havoced local
                if isinstance(v, (list, SymList)) and len(p) == 1: raise Unsupported(f"list {p[0]} changed in a loop in an unsupported way")
                new.add(p)
        if new:
            d.modset.setdefault(self.key, set()).update(new); raise Restart
        if self.mode == "learn": self.backlearn(loc)
        st = {}
        for n in self.names: st[(n,)] = loc.get(n, UNDEF)
        for p in self.mods:
            if p[0] not in loc and p[0] not in self.loc: continue
            o = self.hv.get(p)
            if isinstance(o, A) and len(p) == 1: st[p] = o; continue
            base = self.loc[p[0]]; v = base
            for a in p[1:]: v = v.__dict__.get(a, UNDEF) if hasattr(v, "__dict__") else UNDEF
            st[p] = v
        for p, (v, ver) in self.kept.items():
            if loc.get(p[0], UNDEF) is not v or (len(v) if isinstance(v, list) else v.ver) != ver: d.listchanged.add((self.key, p)); raise Restart
        # kinds
        for p, v in st.items(): p in self.kept or self.kindcheck(p, self.hv.get(p, UNDEF), v)
        if d.run == 1:
            for fs in d.invs:
                if all(k in self.names for k in fs):
                    for k, f in fs.items(): d.prove_same(f"invariant kept by {self.nm}: {k}", loc[k], f(loc))
            for hk in d.hooks: hk(self, self.hv0, loc)
            d.backs[self.occ] = st; raise Stop(self.occ)
        b1 = d.backs.get(self.occ)
        if b1 is None: d.record("both runs take the same course", "failed", f"{self.nm}: an iteration completes in run 2 only"); raise PathEnd
        for p, v in st.items(): self.cmp(p, b1.get(p, UNDEF), v)
        raise PathEnd
    def kindcheck(self, p, h, v):
        d = self.d
        if v is UNDEF: return
        if h is UNDEF or kind(h) != kind(v):
            ks = d.kinds.setdefault((self.key, p), [])
            if len(p) == 1 and not p[0] in self.names: pass
            if not any(kind(t) == kind(v) for t in ks):
                if isinstance(v, SymList) and v.adds and (self.key, p + ("[]",)) not in d.kinds: d.kinds[(self.key, p + ("[]",))] = [v.adds[-1].fn(KV[6])]
                ks.append(v); raise Restart
            return
        if isinstance(v, A) and isinstance(h, A):
            for i in range(len(v.shape_)):
                if (v.shape_[i] is not h.shape_[i] or v.filt[i] is not h.filt[i]) and (self.key, p, i) not in d.dimvar:
                    d.dimvar.add((self.key, p, i)); raise Restart
            if v.dt == "f" and h.dt in ("i", "b"):
                d.kinds[(self.key, p)] = [A(v.shape_, v.body, "f", v.filt)]
                if h.dt != "f": self.promote(p)
            return
        if isinstance(v, tuple):
            for i, (x, y) in enumerate(zip(h, v)): self.kindcheck(p + (str(i),), x, y)
            return
        if isinstance(v, SymList):
            if (self.key, p + ("[]",)) not in d.kinds and (v.adds or not v.unknown):
                d.kinds[(self.key, p + ("[]",))] = [v.adds[-1].fn(KV[6]) if v.base == (self.key, p) and v.adds else v.fn(KV[6])] if v.adds or v.base != (self.key, p) else []; raise Restart
            el = d.kinds.get((self.key, p + ("[]",)))
            if el and v.base == (self.key, p):
                for o in v.adds: self.kindcheck(p + ("[]",), h.fn(KV[6]) if isinstance(h, SymList) and not h.unknown else el[0], o.fn(KV[6]))
            return
        if isobj(v):
            for a in v.__dict__:
                if a in SKIP: continue
                if a not in h.__dict__: d.kinds[(self.key, p)] = [v]; raise Restart
                self.kindcheck(p + (a,), h.__dict__[a], v.__dict__[a])
    def promote(self, p):
        d = self.d
        if ("promoted", self.key, p) not in d.dimvar: d.dimvar.add(("promoted", self.key, p)); raise Restart
    def elemof(self, v): return v
    def cmp(self, p, v1, v2):
        d = self.d; nm = f"{self.nm}: {'.'.join(p)} corresponds after an iteration"
        if v1 is UNDEF and v2 is UNDEF: return
        if isinstance(v1, (bool, int, float)) or (type(v1).__module__ == "numpy" and getattr(v1, "ndim", 1) == 0): v1 = arr(v1)
        if isinstance(v2, (bool, int, float)) or (type(v2).__module__ == "numpy" and getattr(v2, "ndim", 1) == 0): v2 = arr(v2)
        if kind(v1) != kind(v2): d.record(nm, "failed", f"{core.short(v1)} / {core.short(v2)}"); return
        if isinstance(v1, A):
            act = self.store[2].get(("act", p), d.actof.get((self.key, p)))
            if act is None:
                # not a state variable on this path (assigned in the body only): any action will do, remembered for its use after the loop
                for c in d.acts:
                    if c.ok(v1) and d.same(v2, c(v1))[0]: d.actof.setdefault((self.key, p), c); d.record(nm, "proved"); return
                d.record(nm, "failed", d.same(v2, v1)[1]); return
            ok, why = d.same(v2, act(v1)) if act.ok(v1) else (False, "shape"); d.queries += 1
            if ok: d.record(nm, "proved"); return
            if ("tried", self.key, p) not in d.actof:
                for c in d.acts:
                    if c == act or not c.ok(v1): continue
                    e1 = self.store[2].get(("entry", p))
                    if d.same(v2, c(v1))[0] or True:
                        # another relation that holds at entry as well
                        tried = d.actof.setdefault(("tries", self.key, p), [act]); 
                        if c in tried: continue
                        tried.append(c); d.actof[(self.key, p)] = c; DBG and print("TRY", self.key, p, c.name, why[:600]); raise Restart
                d.actof[("tried", self.key, p)] = True
            d.record(nm, "failed", f"({act.name}) {why}\npath: {[(show(k)[:160], v) for k, v in d.trail]}"); return
        if isinstance(v1, SymList):
            x, y = v1, v2
            if v1.n is not v2.n: d.record(nm, "failed", f"lengths {show(v1.n)} / {show(v2.n)}"); return
            if v1.base == v2.base == (self.key, p):
                # the part that was there corresponds; so must everything added
                if len(v1.adds) != len(v2.adds): d.record(nm, "failed", "different numbers of additions"); return
                for x, y in zip(v1.adds, v2.adds):
                    if x.n is not y.n: d.record(nm, "failed", f"lengths {show(x.n)} / {show(y.n)}"); return
                    self.cmp(p + ("[]",), x.fn(KV[6]), y.fn(KV[6]))
                if not v1.adds: d.record(nm, "proved")
            else: self.cmp(p + ("[]",), v1.fn(KV[6]), v2.fn(KV[6]))
            return
        if isinstance(v1, tuple):
            for i, (a, b) in enumerate(zip(v1, v2)): self.cmp(p + (str(i),), a, b)
            return
        if isobj(v1):
            for a in v1.__dict__:
                if a in SKIP: continue
                self.cmp(p + (a,), v1.__dict__[a], v2.__dict__.get(a, UNDEF))
            return
        ok, why = d.same(v1, v2); d.record(nm, "proved" if ok else "failed", why)

def uses(x, hv):
    """does the value depend on one of the named symbols"""
    hit = [False]; seen = set()
    def scan(p):
        if isinstance(p, Poly):
            if p.id in seen: return
            seen.add(p.id)
            for m, _ in p.t:
                for i, _ in m: scan(tdom._tab[i])
        elif isinstance(p, Atom):
            if ("a", p.id) in seen: return
            seen.add(("a", p.id))
            if p.kind in ("x", "bool") and p.args and p.args[0] in hv or p.kind == "v" and p.args[0] in hv: hit[0] = True; return
            for y in p.args: scan(y)
        elif isinstance(p, tuple):
            for y in p: scan(y)
    def val(v):
        if isinstance(v, Poly): scan(v)
        elif isinstance(v, A):
            scan(v.body)
            for y in v.shape_ + v.filt: scan(y)
            if v.flat is not None: scan(v.flat)
        elif isinstance(v, (list, tuple)):
            for y in v: val(y)
        elif isinstance(v, dict):
            for y in v.values(): val(y)
        elif isinstance(v, SymList):
            scan(v.n)
            if v.unknown: hit[0] = True
            else: val(v.fn(KV[6]))
        elif isinstance(v, FrameT): val(v.data)
        elif isinstance(v, Rng): scan(v.state)
        elif isobj(v):
            for y in v.__dict__.values(): val(y)
    val(x); return hit[0]

def closed_form(d, L):
    """the values after the whole loop, when one iteration k (from an arbitrary state h) has one of these effects on each variable:
    v := g(k) (last value kept), v := h + g(k) (sum), v[.., e(k), ..] := g(k) (one entry per iteration), append g(k); g must not read the state."""
    n, kv, hs = L["n"], L["kv"], L["hs"]; k = var(kv); last = {kv: n - ONE}
    if "skip" in L: c0, v0 = L["skip"]; L["paths"] = L["paths"] + [(c0, {p: v0.get(p, UNDEF) for p in L["paths"][0][1]}, L["paths"][0][2])]
    hn = set()
    for p, h in hs.items():
        if p[0] == "rng" and len(p) == 2 and isinstance(h, tuple) and len(h) == 3: continue
        if h[0] == "A": hn.add(tdom._tab[h[1].t[0][0][0][0]].args[0])
        if h[0] == "list": hn.add(tdom._tab[h[1].t[0][0][0][0]].args[0])
    # random states: after one iteration F(state)
    rng = []; rsub = {}
    for q, h in hs.items():
        if not (q[0] == "rng" and len(h) == 3): continue
        r, s0, nm = h; F = L["paths"][0][2][q]
        if any(rs[q] is not F for _, _, rs in L["paths"]): raise Unsupported("the number of random draws depends on the data")
        if F is var(nm): rsub[nm] = s0; rng.append((r, s0)); continue
        if uses(F, hn): raise Unsupported("the random draws depend on earlier iterations")
        Fn = subst(F, {nm: KV[5], kv: KV[6]})
        rsub[nm] = fun("rngat", s0, Fn, k); rng.append((r, fun("rngat", s0, Fn, n)))
    paths = []
    for c, vals, _ in L["paths"]:
        if uses(c, hn): raise Unsupported(f"a condition depends on earlier iterations: {show(c)[:200]}")
        paths.append((subst(c, rsub), {p: at(v, rsub) if rsub and v is not UNDEF and not getattr(v, "unknown", False) else v for p, v in vals.items()}))
    out = {}
    for p in paths[0][1]:
        vs = [(c, vals[p]) for c, vals in paths]
        h = hs.get(p)
        if all(v is UNDEF for _, v in vs): out[p] = lambda v0: v0; continue
        if any(v is UNDEF for _, v in vs): 
            # assigned on some paths only: not used after the loop unless bound; leave unbound
            out[p] = lambda v0: v0; continue
        if h is not None and h[0] == "id" and all(v is h[1] for _, v in vs): out[p] = lambda v0: v0; continue
        if h is not None and h[0] == "list":
            if any(getattr(v, "n", None) is None for _, v in vs): raise Unsupported("list replaced")
            if all(v.n is h[1] for _, v in vs): out[p] = lambda v0: v0; continue
            if not all(v.n is add(h[1], ONE) and len(v.adds) == 1 for _, v in vs): raise Unsupported("list grows differently on different paths")
            g = merge(d, [(c, v.adds[0].fn(ZERO)) for c, v in vs])
            if uses(g, hn): raise Unsupported("appended value depends on earlier iterations")
            def f(v0, g=g):
                l0 = aslist(v0); new = lambda q: at(g, {kv: q})
                if not l0.n.t: return SymList(n, new)
                r = l0.copy(); r.extend(SymList(n, new)); return r
            out[p] = f; continue
        v = merge(d, vs)
        if not uses(v, hn):
            if isinstance(v, A): v = A(v.shape_, v.body, v.dt, v.filt, flat=v.flat)
            g = at(v, last); pos = positive(n)
            out[p] = lambda v0, g=g, pos=pos: (g if pos or v0 is UNDEF else v0 if not n.t else tern(d, gt0(n), g, v0)); continue
        if h is None or h[0] != "A": raise Unsupported(f"{'.'.join(map(str, p))} depends on earlier iterations")
        v = arr(v); hb = h[1]; ha = hb.t[0][0][0][0]
        C = {}; G = {}
        for m, co in v.body.t:
            e = dict(m).get(ha, 0)
            if e == 0: G[m] = co
            elif e == 1: C[tuple(z for z in m if z[0] != ha)] = co
            else: raise Unsupported("power of the state")
        C, G = poly(C), poly(G)
        if uses(C, hn) or uses(G, hn): raise Unsupported(f"{'.'.join(map(str, p))} depends on earlier iterations")
        if C is ONE:
            # accumulated: h + g(k)
            if any(Kn(i) in C.fv for i in range(6)): pass
            tot = sum_(kv, n, G); dt = v.dt
            out[p] = lambda v0, tot=tot, dt=dt: (lambda a: A(a.shape_, add(a.body, tot), dt if a.dt == "i" else a.dt, a.filt))(arr(v0)); continue
        W = ONE - C
        if not v.shape_ and len(p) == 1: out[p] = lambda v0: UNDEF; continue      # a number kept from an unknown iteration: not available after the loop
        out[p] = entries(d, p, v, W, G, n, kv)
    return dict(vals=out, rng=rng)

def tern(d, c, g, v0): return d.mix(c, g, v0)
def merge(d, vs):
    v = vs[-1][1]
    for c, w in vs[-2::-1]: v = d.mix(c, w, v)
    return v
def isvar(x):
    """a bare index symbol"""
    if len(x.t) == 1 and x.t[0][1] == 1 and len(x.t[0][0]) == 1 and x.t[0][0][0][1] == 1:
        a = tdom._tab[x.t[0][0][0][0]]
        if a.kind == "v": return a.args[0]
    return None
def resolve(p, track=()):
    """one monomial: its equalities between index symbols solved and substituted; (polynomial, images of the tracked symbols)"""
    tr = [var(t) for t in track]
    while True:
        hit = None
        for m, c in p.t:
            for i, e in m:
                a = tdom._tab[i]
                if a.kind != "delta": continue
                for x, y in (a.args, a.args[::-1]):
                    v = isvar(x)
                    if v is not None and v not in y.fv: hit = {v: y}; break
                if hit: break
            if hit: break
        if not hit: return p, tr
        p = subst(p, hit); tr = [subst(t, hit) for t in tr]
def contradictory(p):
    """every monomial holds order conditions that exclude each other (integers)"""
    for m, c in p.t:
        cs = [tdom._tab[i].args[0] for i, e in m if tdom._tab[i].kind == "ind"]
        ok = any(nonneg(scale(x, -1)) for x in cs) or any(nonneg(scale(add(x, y), -1)) for x, y in itertools.combinations(cs, 2)) or any(nonneg(scale(addn(list(z)), -1)) for z in itertools.combinations(cs, 3))
        if not ok: return False
    return True
def tricho(p):
    """for integers, [q > 0] + [-q > 0] = 1 - [q = 0]"""
    for m, c in p.t:
        for i, e in m:
            a = tdom._tab[i]
            if a.kind != "ind" or not all(co.denominator == 1 and all(tdom._tab[j].int for j, _ in mm) for mm, co in a.args[0].t): continue
            b = tdom._atoms.get(("ind", ("P", scale(a.args[0], -1).id)))
            if b is None: continue
            rest = tuple(z for z in m if z[0] != i); m2 = tuple(sorted(rest + ((b.id, Fr(1)),)))
            if dict(p.t).get(m2) == c:
                r = {k: v for k, v in p.t if k not in (m, m2)}
                return tricho(add(poly(r), scale(mul(poly({rest: Fr(1)}), ONE - eq0i(a.args[0])), c)))
    return p
def eq0i(q):
    """[q = 0] for an integer polynomial; a difference of two index symbols is an equality of them"""
    if len(q.t) == 2:
        (m1, c1), (m2, c2) = q.t
        if c1 == -c2 and abs(c1) == 1: return delta(poly({m1: Fr(1)}), poly({m2: Fr(1)}))
    return eq0(q)
def entries(d, p, v, W, G, n, kv):
    """iterations write disjoint sets of entries (W: indicator of the entries iteration k writes, G = W * value): afterwards the array holds
    sum_k G(k) + (1 - sum_k W(k)) * old"""
    k = var(kv); k2 = fresh("k"); Wp = subst(W, {kv: var(k2)}); inr = mul(gt0(n - k), gt0(n - var(k2))); name = '.'.join(map(str, p))
    def mono(m, c): return poly({m: c})
    ms = []
    for m, c in W.t:
        r, _ = resolve(mul(mono(m, c), gt0(n - k)))
        if r.t and not contradictory(r): ms.append((m, c))
    for m, c in ms:
        for m2, c2 in Wp.t:
            for m3, c3 in mul(mul(mono(m, c), mono(m2, c2)), inr).t:
                r, (a, b) = resolve(mono(m3, c3), (kv, k2))
                if a is b or not r.t or contradictory(r): continue
                raise Unsupported(f"{name}: two iterations may write the same entry: {show(r)[:200]}")
    def total(q):
        out = ZERO
        for m, c in q.t:
            z, _ = resolve(mul(mono(m, c), gt0(n - k)))
            if not z.t or contradictory(z): continue
            hit = None
            for i, e in m:
                a = tdom._tab[i]
                if a.kind != "delta": continue
                for x, y in (a.args, a.args[::-1]):
                    w = isvar(x)
                    if w in [Kn(j) for j in range(6)] and kv in y.fv and not (y - k).fv & {kv}:
                        pos_ = x - (y - k); whole = y is k and any(v.shape_[j] is n for j in range(len(v.shape_)) if w == Kn(j)); hit = (i, pos_, whole, y is k); break
                if hit: break
            if hit is None: raise Unsupported(f"{name}: entries written in an unsupported pattern: {show(mono(m, c))[:200]}")
            i, pos_, whole, nonn = hit
            r = subst(poly({tuple(z for z in m if z[0] != i): c}), {kv: pos_})
            out = add(out, r if whole else mul(r, gt0(n - pos_) if nonn else mul(ge0(pos_), gt0(n - pos_))))
        return out
    SW, SG = tricho(total(W)), total(G); dt = v.dt
    return lambda v0: (lambda a: A(a.shape_, add(SG, mul(notp(SW), a.body)), dt if a.dt != "f" else "f", a.filt))(arr(v0))

def kind(v):
    if isinstance(v, A): return ("A", len(v.shape_), "b" if v.dt == "b" else "n")
    if isinstance(v, bool): return ("A", 0, "b")
    if isinstance(v, (int, float)) or (type(v).__module__ == "numpy" and getattr(v, "ndim", 1) == 0): return ("A", 0, "n")
    if isinstance(v, (list, SymList)): return "list"
    if isinstance(v, tuple): return ("tuple", len(v))
    if v is None: return "None"
    return type(v).__name__

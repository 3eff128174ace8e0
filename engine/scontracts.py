"""contracts of the library functions used by the code under verification (domain S): trusted, listed in the evidence"""
import z3, builtins
from sdom import *
from sdom import K
import core

def install(d):
    H = d.handlers; V = d.values
    d.contracts_used = set()
    def h(*names):
        def deco(f):
            for n in names:
                def g(*a, _n=n, **k):
                    d.contracts_used.add(_n); return f(*a, **k)
                H[n] = g
            return f
        return deco
    def known_nonzero(b):
        if z3.is_rational_value(b) or any(has(b, v) for v in K): return False
        if z3.is_app_of(b, z3.Z3_OP_TO_REAL) or z3.is_const(b) and b.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return d.entails(b != 0, 500) == "proved"
        return False
    d.known_nonzero = known_nonzero
    # ---------------------------------------------------------------- elementwise
    def bcast(a, b):
        """bring two arrays to a common shape"""
        if a.filt is not None or b.filt is not None:
            if a.filt is not None and b.filt is not None:
                if not (a.filt[1].eq(b.filt[1]) and a.filt[0].eq(b.filt[0])): raise Unsupported("two different selections combined")
            elif (b if a.filt is not None else a).ndim == (a if a.filt is not None else b).ndim and not z3.is_int_value((b if a.filt is not None else a).shape_[0]) : raise Unsupported("selection combined with a full array")
        ra, rb = a.ndim, b.ndim; r = builtins.max(ra, rb); sh = []; pa, pb = [], []
        for ax in range(r):
            ia, ib = ax - (r - ra), ax - (r - rb)
            na = a.shape_[ia] if ia >= 0 else None; nb = b.shape_[ib] if ib >= 0 else None
            one = lambda n: n is not None and z3.is_int_value(z3.simplify(n)) and z3.simplify(n).as_long() == 1
            n = na if nb is None or (one(nb) and na is not None and not one(na)) else (nb if na is None or one(na) else na)
            sh.append(n)
            if ia >= 0: pa.append((K[ia], z3.IntVal(0) if one(na) and not one(n) else K[ax]))
            if ib >= 0: pb.append((K[ib], z3.IntVal(0) if one(nb) and not one(n) else K[ax]))
        f = a.filt if a.filt is not None else b.filt
        return sh, (subst(a.body, pa), subst(a.ok, pa)), (subst(b.body, pb), subst(b.ok, pb)), f
    def lift(f):
        def g(*xs):
            if not any(isinstance(x, (Arr, SymList, list, tuple)) or type(x).__name__ == "ndarray" for x in xs):
                ns = [d.num(x) for x in xs]; e, ok = f(*[(n.e, n.ok) for n in ns]); return Num(e, ok)
            as_ = [d.arr(x) for x in xs]
            while len(as_) > 2:   # ternary
                sh, p, q, fl = bcast(as_[0], as_[1]); m = Arr(sh, p[0], T, fl)
                sh2, p2, r, fl2 = bcast(m, as_[2])
                A = [Arr(sh2, *bc(as_[i], sh2), fl2) for i in range(3)]
                e, ok = f(*[(x.body, x.ok) for x in A]); return Arr(sh2, e, ok, fl2)
            if len(as_) == 1:
                e, ok = f((as_[0].body, as_[0].ok)); return Arr(as_[0].shape_, e, ok, as_[0].filt)
            sh, p, q, fl = bcast(*as_); e, ok = f(p, q)
            return Arr(sh, e, ok, fl) if sh else Num(e, ok)
        return g
    def bc(a, sh):
        z = Arr(sh, RV(0)); z.filt = a.filt
        s, p, q, f = bcast(a, z); return p
    def arith(op):
        def f(x, y):
            (a, oa), (b, ob) = x, y; ok = And(oa, ob)
            if a.sort() == B and b.sort() == B: a, b = z3.If(a, z3.IntVal(1), z3.IntVal(0)), z3.If(b, z3.IntVal(1), z3.IntVal(0))
            a, b = coerce(a, b)
            if op == "add": return a + b, ok
            if op == "sub": return a - b, ok
            if op == "mul": return a * b, ok
            if op == "truediv":
                a, b = real(a), real(b)
                if d.known_nonzero(b): return a / b, ok
                return a / b, And(ok, b != 0 if not z3.is_rational_value(b) else z3.BoolVal(b.as_fraction() != 0))
            if op == "maximum": return Ite(a >= b, a, b), ok
            if op == "minimum": return Ite(a <= b, a, b), ok
            if op == "floordiv":
                if a.sort() == I: return a / b, ok
                return real(floor(a / b)), And(ok, b != 0)
            if op == "mod":
                if a.sort() == I: return a % b, ok
                return a - b * real(floor(a / b)), And(ok, b != 0)
            if op == "pow":
                bs = z3.simplify(b)
                if z3.is_int_value(bs): n = bs.as_long()
                elif z3.is_rational_value(bs) and bs.denominator_as_long() == 1: n = bs.numerator_as_long()
                else: n = None
                if n is not None and 0 <= n <= 8:
                    r = RV(1) if a.sort() == R else z3.IntVal(1)
                    for i in range(n): r = a if i == 0 else r * a
                    return r, ok
                if n is not None and -8 <= n < 0:
                    r = real(a)
                    for i in range(-n - 1): r = r * real(a)
                    return 1 / r, And(ok, a != 0)
                a, b = real(a), real(b)
                if z3.is_rational_value(bs) and bs.as_fraction() == 0.5: return SQRT(a), And(ok, a >= 0)
                return POW(a, b), And(ok, a > 0)
            raise Unsupported(op)
        return f
    def cmp(op):
        def f(x, y):
            (a, oa), (b, ob) = x, y; a, b = coerce(a, b); ok = And(oa, ob)
            if a.sort() == B: e = {"eq": a == b, "ne": a != b}[op]
            else: e = {"lt": lambda: a < b, "le": lambda: a <= b, "gt": lambda: a > b, "ge": lambda: a >= b, "eq": lambda: a == b, "ne": lambda: a != b}[op]()
            return (And(ok, e) if op != "ne" else Or(Not(ok), e)), T
        return f
    def logic(op):
        def f(x, y):
            a, b = x[0], y[0]
            if a.sort() != B or b.sort() != B: raise Unsupported("bitwise operation on numbers")
            return {"and": And(a, b), "or": Or(a, b), "xor": z3.Xor(a, b)}[op], And(x[1], y[1])
        return f
    BIN = {n: lift(arith(n)) for n in ("add", "sub", "mul", "truediv", "maximum", "minimum", "floordiv", "mod", "pow")}
    BIN.update({n: lift(cmp(n)) for n in ("lt", "le", "gt", "ge", "eq", "ne")}); BIN.update({n: lift(logic(n)) for n in ("and", "or", "xor")})
    def binary(name, a, b):
        if name in ("eq", "ne") and (a is None or b is None or isinstance(a, str) or isinstance(b, str)): return name == "ne"
        for x in (a, b):
            if isinstance(x, (core.Lib,)) or x is None: raise Unsupported(f"{name} with {core.short(x)}")
        return BIN[name](a, b)
    d.binary = binary
    def un(f): return lift(lambda x: f(*x))
    UN = {"neg": un(lambda a, o: (-(real(a) if a.sort() == B else a), o)), "abs": un(lambda a, o: (Ite(a >= 0, a, -a), o)),
          "not": un(lambda a, o: (Not(a), o) if a.sort() == B else (_ for _ in ()).throw(Unsupported("~ of a number")))}
    d.unary = lambda n, a: UN[n](a)
    h("numpy.abs", "numpy.absolute", "numpy.fabs")(lambda x: UN["abs"](x))
    h("numpy.negative")(lambda x: UN["neg"](x))
    h("numpy.sign")(un(lambda a, o: (Ite(real(a) > 0, RV(1), Ite(real(a) < 0, RV(-1), RV(0))), o)))
    h("numpy.sqrt", "math.sqrt")(un(lambda a, o: (SQRT(real(a)), And(o, a >= 0))))
    h("numpy.exp", "math.exp")(un(lambda a, o: (EXP(real(a)), o)))
    h("numpy.expm1")(un(lambda a, o: (EXP(real(a)) - 1, o)))
    h("numpy.log", "math.log")(un(lambda a, o: (LOG(real(a)), And(o, a > 0))))
    h("numpy.log1p")(un(lambda a, o: (LOG(1 + real(a)), And(o, a > -1))))
    h("numpy.tanh")(un(lambda a, o: (TANH(real(a)), o)))
    h("numpy.square")(un(lambda a, o: (a * a, o)))
    h("numpy.reciprocal")(un(lambda a, o: (1 / real(a), And(o, a != 0))))
    h("numpy.floor", "math.floor")(un(lambda a, o: (a if a.sort() == I else z3.ToReal(floor(a)), o)))
    h("numpy.ceil", "math.ceil")(un(lambda a, o: (a if a.sort() == I else z3.ToReal(-floor(-a)), o)))
    h("numpy.isnan")(un(lambda a, o: (Not(o), T)))
    h("numpy.isfinite")(un(lambda a, o: (o, T)))
    h("numpy.isinf")(un(lambda a, o: (F, T)))
    h("numpy.float64", "numpy.asarray", "numpy.ascontiguousarray")(lambda x, dtype=None: x if isinstance(x, (Num, Arr)) else d.arr(x))
    h("numpy.array", "numpy.copy")(lambda x, dtype=None, copy=True: x.copy() if isinstance(x, Arr) else (x if isinstance(x, Num) else d.name(d.arr(x)) if isinstance(x, SymList) else d.arr(x)))
    for np_, op in (("add", "add"), ("subtract", "sub"), ("multiply", "mul"), ("true_divide", "truediv"), ("maximum", "maximum"), ("minimum", "minimum"), ("power", "pow"),
                    ("less", "lt"), ("less_equal", "le"), ("greater", "gt"), ("greater_equal", "ge"), ("equal", "eq"), ("not_equal", "ne"), ("logical_and", "and"), ("logical_or", "or"), ("fmax", "maximum"), ("fmin", "minimum")):
        h("numpy." + np_)(lambda a, b, op=op: binary(op, a, b))
    def divide(a, b, out=None, where=True):
        r = binary("truediv", a, b)
        if out is None: return r
        return H["numpy.where"](where, r, out)
    h("numpy.divide")(divide)
    h("numpy.logical_not")(lambda x: UN["not"](x))
    h("numpy.clip")(lambda x, lo=None, hi=None, a_min=None, a_max=None: (lambda l, u: binary("minimum", binary("maximum", x, l) if l is not None else x, u) if u is not None else binary("maximum", x, l))(lo if lo is not None else a_min, hi if hi is not None else a_max))
    where3 = lift(lambda c, x, y: (Ite(c[0], *coerce(x[0], y[0])), And(c[1], Ite(c[0], x[1], y[1]))))
    h("numpy.where")(lambda c, x, y: d.name(where3(c, x, y)))
    def astype(x, t):
        nm = t if isinstance(t, str) else getattr(t, "_path", getattr(t, "__name__", str(t)))
        nm = nm.split(".")[-1]
        def f(a, o):
            if nm.startswith("float"): return real(a), o
            if nm.startswith("int"):
                if a.sort() == I: return a, o
                if a.sort() == B: return z3.If(a, z3.IntVal(1), z3.IntVal(0)), o
                return trunc(a), o
            if nm.startswith("bool"): return (a if a.sort() == B else a != 0), o
            raise Unsupported("astype " + nm)
        return un(f)(x)
    d.astype = astype
    # ---------------------------------------------------------------- constructors
    dim = lambda n: n.e if isinstance(n, Num) else z3.IntVal(builtins.int(n))
    def shape_of(s): return [dim(x) for x in s] if isinstance(s, (tuple, list)) else [dim(s)]
    def full(s, v, dtype=None, **k):
        v = d.num(v); return Arr(shape_of(s), real(v.e) if dtype is None or "float" in str(dtype) else v.e, v.ok)
    def const(v):
        def f(s=None, dtype=None, shape=None, **k):
            s = shape if s is None else s; nm = str(getattr(dtype, "__name__", getattr(dtype, "real", dtype)))
            e = lit(v) if "int" in nm else (T if v else F) if "bool" in nm else RV(v)
            return Arr(shape_of(s), e)
        return f
    h("numpy.zeros", "numpy.empty")(const(0)); h("numpy.ones")(const(1)); h("numpy.full")(full)
    h("numpy.zeros_like", "numpy.empty_like")(lambda x, dtype=None: (lambda a: Arr(a.shape_, RV(0) if (dtype is not None or a.body.sort() == R) else z3.IntVal(0), T, a.filt) if a.ndim else Num(RV(0)) if not isinstance(x, Arr) else Arr((), RV(0)))(d.arr(x)))
    h("numpy.ones_like")(lambda x, dtype=None: (lambda a: Arr(a.shape_, RV(1), T, a.filt))(d.arr(x)))
    h("numpy.full_like")(lambda x, v, dtype=None: (lambda a: Arr(a.shape_, real(d.num(v).e), d.num(v).ok, a.filt))(d.arr(x)))
    def arange(*a, **k):
        lo, hi = (z3.IntVal(0), dim(a[0])) if len(a) == 1 else (dim(a[0]), dim(a[1]))
        if len(a) > 2: raise Unsupported("arange step")
        return Arr((z3.simplify(hi - lo),), K[0] + lo)
    h("numpy.arange")(arange)
    def identity(n, *a, **k): return Arr((dim(n), dim(n)), z3.If(K[0] == K[1], RV(1), RV(0)))
    h("numpy.eye", "numpy.identity")(identity)
    # ---------------------------------------------------------------- shape
    def length(a):
        if a.filt is not None: return Num(d.sum_term(RV(1), a.filt[0], subst(a.filt[1], [(K[0], Z())])))
        return Num(a.shape_[0])
    d.length = length
    def Z():
        import sdomain; return sdomain.Z
    def reshape(a, *s, **k):
        if len(s) == 1 and isinstance(s[0], (tuple, list)): s = tuple(s[0])
        one = lambda n: isinstance(n, builtins.int) and n == 1
        c = lambda n: z3.is_int_value(z3.simplify(n)) and z3.simplify(n).as_long() == 1
        if s == (-1,):
            if a.ndim == 1: return a
            if a.ndim == 0: return Arr((z3.IntVal(1),), a.body, a.ok)
            if a.ndim == 2 and c(a.shape_[1]): return Arr(a.shape_[:1], subst(a.body, [(K[1], z3.IntVal(0))]), subst(a.ok, [(K[1], z3.IntVal(0))]), a.filt)
            if a.ndim == 2 and c(a.shape_[0]): return Arr(a.shape_[1:], subst(a.body, [(K[0], z3.IntVal(0)), (K[1], K[0])]), subst(a.ok, [(K[0], z3.IntVal(0)), (K[1], K[0])]))
            raise Unsupported("flatten a matrix")
        if len(s) == 2 and a.ndim == 1 and one(s[1]): return Arr((a.shape_[0], z3.IntVal(1)), a.body, a.ok, a.filt)
        if len(s) == 2 and a.ndim == 1 and one(s[0]): return Arr((z3.IntVal(1), a.shape_[0]), subst(a.body, [(K[0], K[1])]), subst(a.ok, [(K[0], K[1])]))
        if len(s) == 2 and a.ndim == 2 and one(s[1]) and c(a.shape_[1]): return a
        if len(s) == 2 and a.ndim == 2 and one(s[1]) and a.filt is None and d.entails(a.shape_[1] == 1, 2000) == "proved":
            return Arr((a.shape_[0], z3.IntVal(1)), subst(a.body, [(K[1], z3.IntVal(0))]), subst(a.ok, [(K[1], z3.IntVal(0))]))
        raise Unsupported(f"reshape {s}")
    d.reshape = reshape
    h("numpy.reshape")(lambda a, s: reshape(d.arr(a), s)); h("numpy.ravel")(lambda a: reshape(d.arr(a), -1))
    h("numpy.transpose")(lambda a: d.arr(a).T)
    h("numpy.atleast_1d")(lambda a: d.arr(a) if isinstance(a, Arr) and a.ndim else reshape(d.arr(a), -1))
    h("numpy.flip")(lambda a, axis=None: getitem(a, slice(None, None, -1)))
    def cat(xs, axis):
        xs = [d.arr(x) for x in xs]
        sizes = [z3.simplify(x.shape_[axis]) for x in xs]; r = xs[0].ndim; off = z3.IntVal(0); body = ok = None; pieces = []
        for x, n in zip(xs, sizes): pieces.append((x, off, n)); off = z3.simplify(off + n)
        for x, o, n in reversed(pieces):
            ps = [(K[axis], z3.simplify(K[axis] - o))]; b, k = subst(x.body, ps), subst(x.ok, ps)
            if body is None: body, ok = b, k
            else: body, ok = Ite(K[axis] < o + n, *coerce(b, body)), Ite(K[axis] < o + n, k, ok)
        sh = list(xs[0].shape_); sh[axis] = off
        return Arr(sh, body, ok)
    h("numpy.hstack")(lambda xs: cat(xs, 0 if d.arr(xs[0]).ndim == 1 else 1)); h("numpy.vstack")(lambda xs: cat([x if d.arr(x).ndim == 2 else reshape(d.arr(x), 1, -1) for x in xs], 0))
    h("numpy.concatenate")(lambda xs, axis=0: cat(xs, axis)); h("numpy.append")(lambda a, b, axis=None: cat([a, d.arr(b) if d.arr(b).ndim else reshape(d.arr(b), -1)], 0))
    h("numpy.column_stack")(lambda xs: cat([x if d.arr(x).ndim == 2 else reshape(d.arr(x), -1, 1) for x in xs], 1))
    def stack(xs, axis=0):
        a = d.arr(xs if isinstance(xs, SymList) else list(xs))
        if axis in (0,): return a
        if axis in (-1, a.ndim - 1) and a.ndim == 2: return a.T
        raise Unsupported("stack axis")
    h("numpy.stack")(stack)
    # ---------------------------------------------------------------- indexing
    def idx(v, n):
        if isinstance(v, Num): return real_int(v.e)
        v = builtins.int(v); return z3.IntVal(v) if v >= 0 else z3.simplify(n + v)
    def real_int(e): return e if e.sort() == I else z3.ToInt(e)
    def getitem(a, it):
        if isinstance(a, Num): a = d.arr(a)
        if not isinstance(it, tuple): it = (it,)
        if len(it) == 1 and isinstance(it[0], Arr) and it[0].body.sort() == B and it[0].ndim == a.ndim and a.ndim >= 1:
            m = it[0]
            if a.ndim != 1: raise Unsupported("boolean selection of cells")
            if a.filt is not None:
                if m.filt is None or not m.filt[1].eq(a.filt[1]): raise Unsupported("selection of a selection")
                return Arr(a.shape_, a.body, a.ok, (a.filt[0], And(a.filt[1], m.body)))
            return Arr(a.shape_, a.body, a.ok, (a.shape_[0], m.body))
        it = [x for x in it]
        if Ellipsis in [x for x in it if not isinstance(x, Sym)]:
            p = [i for i, x in enumerate(it) if not isinstance(x, Sym) and x is Ellipsis][0]
            it = it[:p] + [slice(None)] * (a.ndim - sum(1 for x in it if x is not None) + 1) + it[p + 1:]
        nreal = builtins.sum(1 for x in it if x is not None)
        it += [slice(None)] * (a.ndim - nreal)
        sh, ps, ax, out, filt = [], [], 0, 0, a.filt
        for x in it:
            if x is None: sh.append(z3.IntVal(1)); out += 1; continue
            n = a.shape_[ax]
            if isinstance(x, slice):
                if ax == 0 and a.filt is not None:
                    if x != slice(None): raise Unsupported("slice of a selection")
                    sh.append(n); ps.append((K[0], K[out]))
                elif x.step is not None and not (isinstance(x.step, builtins.int) and x.step == 1):
                    if x.step == -1 and x.start is None and x.stop is None: sh.append(n); ps.append((K[ax], n - 1 - K[out]))
                    else: raise Unsupported("slice step")
                else:
                    lo = z3.IntVal(0) if x.start is None else idx(x.start, n); hi = n if x.stop is None else idx(x.stop, n)
                    sh.append(z3.simplify(hi - lo)); ps.append((K[ax], K[out] if z3.is_int_value(lo) and lo.as_long() == 0 else K[out] + lo))
                out += 1
            elif isinstance(x, (builtins.int, Num)) and not isinstance(x, builtins.bool) or type(x).__name__.startswith("int"):
                if ax == 0 and a.filt is not None: raise Unsupported("element of a selection")
                ps.append((K[ax], idx(x, n)))
            elif isinstance(x, (Arr, list)) or type(x).__name__ == "ndarray":
                x = d.arr(x)
                if x.body.sort() == B:
                    if x.ndim != 1 or ax != 0 or a.filt is not None: raise Unsupported("boolean selection")
                    filt = (n, x.body); sh.append(n); ps.append((K[0], K[out])); out += 1
                else:
                    if x.ndim != 1: raise Unsupported("fancy indexing")
                    if builtins.sum(isinstance(y, (Arr, list)) for y in it) > 1: raise Unsupported("fancy indexing with several arrays")
                    sh.append(x.shape_[0]); ps.append((K[ax], subst(real_int(x.body), [(K[0], K[out])]))); out += 1
                    if x.filt is not None: filt = x.filt
            else: raise Unsupported(f"index {core.short(x)}")
            ax += 1
        body, ok = subst(a.body, ps), subst(a.ok, ps)
        if not sh: return Num(body, ok)
        return Arr(sh, body, ok, filt)
    d.getitem = getitem
    def setitem(a, it, v):
        if getattr(a, "frozen", None): raise Unsupported("write into an input array")
        d.writes = getattr(d, "writes", 0) + 1
        if not isinstance(it, tuple): it = (it,)
        va = d.arr(v)
        if len(it) == 1 and isinstance(it[0], Arr) and it[0].body.sort() == B and it[0].ndim == a.ndim:
            m = it[0].body
            if va.filt is not None:
                if not va.filt[1].eq(m):
                    if d.entails(z3.And(va.filt[1] == m), 2000) != "proved": raise Unsupported("assignment of a different selection")
                vb, vo = va.body, va.ok
            elif va.ndim == 0: vb, vo = va.body, va.ok
            else: raise Unsupported("masked assignment of a full array")
            x, y = coerce(vb, a.body)
            a.body = Ite(m, x, y); a.ok = Ite(m, vo, a.ok); a.body = d.name(a).body; return
        it = list(it) + [slice(None)] * (a.ndim - len(it)); conds = []; kept = []
        for ax, x in enumerate(it):
            n = a.shape_[ax]
            if isinstance(x, slice):
                lo = z3.IntVal(0) if x.start is None else idx(x.start, n); hi = n if x.stop is None else idx(x.stop, n)
                if x.start is not None: conds.append(K[ax] >= lo)
                if x.stop is not None: conds.append(K[ax] < hi)
                kept.append((ax, lo))
            elif isinstance(x, (builtins.int, Num)) or type(x).__name__.startswith("int"): conds.append(K[ax] == idx(x, n))
            elif isinstance(x, Arr) and x.body.sort() == B and x.ndim == 1:
                conds.append(subst(x.body, [(K[0], K[ax])])); kept.append((ax, z3.IntVal(0)))
                if va.ndim and va.filt is None: raise Unsupported("masked assignment")
            else: raise Unsupported(f"assignment at index {core.short(x)}")
        if va.ndim > len(kept): raise Unsupported("assignment shape")
        kept = kept[len(kept) - va.ndim:] if va.ndim else []
        tmp = [(K[j], z3.Int(f"t{j}!")) for j in range(va.ndim)]
        ps = []
        for j, (ax, lo) in enumerate(kept):
            n1 = z3.simplify(va.shape_[j])
            ps.append((tmp[j][1], z3.IntVal(0) if z3.is_int_value(n1) and n1.as_long() == 1 else z3.simplify(K[ax] - lo)))
        vb, vo = subst(subst(va.body, tmp), ps), subst(subst(va.ok, tmp), ps)
        c = And(*conds); x, y = coerce(vb, a.body)
        if a.body.sort() == I and x.sort() == R: x, y = trunc(vb), a.body
        a.body = Ite(c, x, y); a.ok = Ite(c, vo, a.ok)
    d.setitem = setitem
    # ---------------------------------------------------------------- reductions
    def red(f):
        """reduce over `axis` (None: all axes of a one-dimensional array)"""
        def g(x, axis=None, keepdims=False, **k):
            a = d.arr(x)
            if a.ndim == 0: a = reshape(a, -1)
            if axis is None:
                if a.ndim == 1: axis = 0
                else:
                    r = g(g(Arr(a.shape_, a.body, a.ok, a.filt), axis=a.ndim - 1, **k), axis=None, **k) if getattr(f, "assoc", False) else None
                    if r is None: raise Unsupported("reduction over all axes of a matrix")
                    return r
            axis = axis if axis >= 0 else a.ndim + axis
            filt = None
            if a.filt is not None:
                if axis != 0: raise Unsupported("reduction along a selection")
                filt = subst(a.filt[1], [(K[0], Z())])
            ps = [(K[axis], Z())] + [(K[j], K[j - 1]) for j in range(axis + 1, a.ndim)]
            body, ok = subst(a.body, ps), subst(a.ok, ps)
            if filt is not None: filt = subst(filt, [(K[j], K[j - 1]) for j in range(1, a.ndim)])
            n = a.filt[0] if a.filt is not None else a.shape_[axis]
            e, o = f(body, allok(ok, n, filt), n, filt, **k)
            sh = a.shape_[:axis] + a.shape_[axis + 1:]
            if keepdims:
                sh = a.shape_[:axis] + (z3.IntVal(1),) + a.shape_[axis + 1:]
                up = [(K[j - 1], K[j]) for j in range(axis + 1, a.ndim)]; e, o = subst(e, up), subst(o, up)
            return Arr(sh, e, o) if sh else Num(e, o)
        return g
    def allok(ok, n, filt):
        if z3.is_true(ok): return T
        key = ("allok", ok.get_id(), n.get_id(), filt.get_id() if filt is not None else 0)
        i = d.fresh("i", I); side = [i >= 0, i < n] + ([subst(filt, [(Z(), i)])] if filt is not None else [])
        if d.entails(subst(ok, [(Z(), i)]), 4000, side) == "proved": return T
        app = d.functional("allok", z3.If(ok, RV(1), RV(0)), n, filt); return app == 1
    def allok_facts(name):
        pass
    def f_sum(body, ok, n, filt): 
        return d.sum_term(body, n, filt), ok
    f_sum.assoc = True
    def cnt(n, filt): return real(n) if filt is None else d.sum_term(RV(1), n, filt)
    def f_mean(body, ok, n, filt):
        c = cnt(n, filt); return d.sum_term(body, n, filt) / c, And(ok, nz(c))
    def nz(c):
        if d.entails(c != 0, 2000) == "proved" or d.has_sum(c) and d.positive(c): return T
        return c != 0
    def f_var(body, ok, n, filt, ddof=0):
        c = cnt(n, filt); m = d.sum_term(body, n, filt) / c
        q = p_term(poly(real(body)))
        t = (real(body) - m); dv = c if ddof == 0 else c - RV(ddof)
        return d.sum_term(t * t, n, filt) / dv, And(ok, nz(c) if ddof == 0 else dv != 0)
    def f_std(body, ok, n, filt, ddof=0):
        v, o = f_var(body, ok, n, filt, ddof); v = p_term(poly(v))
        return SQRT(v), o     # the variance is a mean of squares, hence nonnegative (contract)
    def guard_var(e):
        return e
    d.var_terms = []
    h("numpy.sum", "numpy.add.reduce")(red(f_sum))
    h("numpy.mean", "numpy.average")(red(f_mean))
    def var(x, axis=None, ddof=0, **k):
        r = red(f_var)(x, axis=axis, ddof=ddof); e = r.e if isinstance(r, Num) else r.body
        d.nonneg_contract(e); return r
    def std(x, axis=None, ddof=0, **k):
        r = red(f_std)(x, axis=axis, ddof=ddof); e = r.e if isinstance(r, Num) else r.body
        d.nonneg_contract(e.children()[0]); return r
    h("numpy.var")(var); h("numpy.std")(std)
    d.nonneg_terms = {}
    def nonneg_contract(e):
        """a variance is nonnegative: fact attached to the sums occurring in it"""
        for a in d.apps(e):
            nm = a.decl().name()
            d.nonneg_terms.setdefault(nm, [])
            tmpl = subst(e, [(c, p) for c, p in zip(a.children(), __import__("sdomain").P)])
            if not any(tmpl.eq(x) for x in d.nonneg_terms[nm]): d.nonneg_terms[nm].append(tmpl)
            if nm not in d.fact_gens:
                d.fact_gens[nm] = lambda app, ts, nm=nm: sum_facts(app, ts)
    d.nonneg_contract = nonneg_contract
    def sum_facts(app, ts):
        from sdomain import P as PP
        out = []
        for t in d.nonneg_terms.get(app.decl().name(), []):
            e = subst(t, list(zip(PP, app.children())))
            if not any(has(e, p) for p in PP): out.append(e >= 0)
        return out
    def summ(x, *a, **k):
        r = red(f_sum)(x, *a, **k); reg_sum(r.e if isinstance(r, Num) else r.body); return r
    def reg_sum(e): pass
    # order statistics: functionals with the contract "between two of the values" (hence between the extremes)
    def orderstat(name, extra=()):
        def f(body, ok, n, filt, **k):
            app = d.functional(name, p_term(poly(real(body))) if False else real(body), n, filt, extra)
            d.fact_gens.setdefault(app.decl().name(), lambda a, ts: order_facts(a, ts)); return app, And(ok, nonempty(n, filt))
        return f
    def nonempty(n, filt):
        c = cnt(n, filt)
        if d.entails(c > 0, 2000) == "proved" or d.has_sum(c) and d.positive(c): return T
        return c > 0
    d._wit = {}; d.witness = lambda a, w: witness(a, w)
    def witness(app, which):
        key = (app.get_id(), which)
        if key not in d._wit:
            ch = app.children(); nm = f"{which}:{app.decl().name()}"
            d._wit[key] = z3.Function(nm, *([I] * len(ch)), I)(*ch) if ch else z3.Int(nm); d.keep.append(app)
        return d._wit[key]
    def inst(r, t): return subst(r["body"], [(Z(), t)]), subst(r["filt"], [(Z(), t)])
    def order_facts(app, ts):
        r = d.rec(app); out = []; n = r["n"]; nm = r["name"]
        ne = n > 0 if z3.is_true(r["filt"]) else None
        if nm in ("min", "max", "median", "percentile"):
            for w, le in (("lo", True), ("hi", False)):
                if nm == "min" and w == "lo" or nm == "max" and w == "hi": pass
                if nm == "min" and w == "hi" or nm == "max" and w == "lo":
                    # the extreme is attained
                    pass
                i = witness(app, w); b, f = inst(r, i); rel = (b <= app) if le else (b >= app)
                c = z3.And(i >= 0, i < n, f, rel)
                out.append(c if ne is None else z3.Implies(ne, c))
            if nm in ("min", "max"):
                for t in ts:
                    b, f = inst(r, t); out.append(z3.Implies(z3.And(t >= 0, t < n, f), app <= b if nm == "min" else app >= b))
        return out
    def pct_pair(a, b):
        ra, rb = d.rec(a), d.rec(b)
        return []
    def order_pairs(fs):
        """percentiles of the same values are ordered by their level; the median is the 50th"""
        out = []
        lv = []
        for a in fs:
            r = d.rec(a)
            if r and r["name"] in ("min", "max", "median", "percentile"):
                q = {"min": 0, "max": 100, "median": 50}.get(r["name"], r["extra"][0] if r["extra"] else None); lv.append((q, r, a))
        for i, (q1, r1, a1) in enumerate(lv):
            for q2, r2, a2 in lv[i + 1:]:
                if r1["body"].eq(r2["body"]) and r1["filt"].eq(r2["filt"]) and r1["n"].eq(r2["n"]):
                    out.append(a1 <= a2 if q1 < q2 else a2 <= a1 if q2 < q1 else a1 == a2)
        return out
    d.order_pairs = order_pairs
    for nm in ("min", "max"):
        f = orderstat(nm); f.assoc = True
        def small(f, nm=nm):
            g0 = red(f); op = "minimum" if nm == "min" else "maximum"
            def g(x, axis=None, **k):
                if isinstance(x, (list, tuple)) and x and not any(isinstance(y, (Arr, SymList, list)) for y in x):
                    r = d.num(x[0])
                    for y in x[1:]: r = binary(op, r, y)
                    return r
                a = d.arr(x)
                if a.filt is None and axis is not None and a.ndim == 2:
                    n = z3.simplify(a.shape_[axis])
                    if z3.is_int_value(n) and 1 <= n.as_long() <= 6:
                        r = getitem(a, (slice(None), 0) if axis in (1, -1) else (0, slice(None)))
                        for j in range(1, n.as_long()): r = binary(op, r, getitem(a, (slice(None), j) if axis in (1, -1) else (j, slice(None))))
                        return r
                if a.filt is None and a.ndim == 1:
                    n = z3.simplify(a.shape_[0])
                    if z3.is_int_value(n) and 1 <= n.as_long() <= 6:
                        r = getitem(a, 0)
                        for j in range(1, n.as_long()): r = binary(op, r, getitem(a, j))
                        return r
                return g0(a, axis=axis, **k)
            return g
        h(f"numpy.{nm}", f"numpy.a{nm}")(small(f))
    h("numpy.median")(red(orderstat("median")))
    def percentile(x, q, axis=None, **k):
        if isinstance(q, (list, tuple)): return d.stack_concrete([d.arr(percentile(x, y, axis=axis, **k)) for y in q])
        return red(orderstat("median" if q == 50 else "percentile", (float(q),) if q != 50 else ()))(x, axis=axis)
    h("numpy.percentile")(percentile)
    h("numpy.quantile")(lambda x, q, axis=None, **k: percentile(x, [100 * y for y in q] if isinstance(q, (list, tuple)) else 100 * q, axis=axis))
    MADC = 1 / 0.67448975019608171
    def mad(x, axis=0, center=None, scale=1.0, nan_policy="propagate"):
        a = d.arr(x); axis = 0 if axis is None else axis
        med = red(orderstat("median"))(a, axis=axis, keepdims=True) if a.ndim > 1 else red(orderstat("median"))(a)
        r = red(orderstat("median"))(UN["abs"](binary("sub", a, med)), axis=axis)
        if scale == "normal": return binary("truediv", r, Num(z3.Real("qnorm75")))
        return binary("truediv", r, scale) if scale != 1.0 else r
    h("scipy.stats.median_abs_deviation")(mad)
    d.base.append(z3.And(z3.Real("qnorm75") > RV("0.6744"), z3.Real("qnorm75") < RV("0.6745")))
    def np_any(x, axis=None, **k):
        a = d.arr(x)
        if axis is not None or a.ndim != 1:
            if a.ndim == 0: return Num(a.body)
            if axis is not None and a.ndim == 2:
                return red(lambda b, ok, n, f: (d.quant("any", b, n, f), T))(a, axis=axis)
            if axis is None and a.ndim == 2: return np_any(np_any(a, axis=1))
            raise Unsupported("any")
        return red(lambda b, ok, n, f: (d.quant("any", b, n, f), T))(a)
    def quant(kind, b, n, filt):
        """existential / universal statement over the index: a Boolean with its two defining facts"""
        b = And(b, filt) if filt is not None and kind == "any" else (z3.Implies(filt, b) if filt is not None else b)
        if kind == "all": return Not(quant("any", Not(b), n, None))
        b = z3.simplify(b)
        if z3.is_false(b): return F
        if z3.is_true(b): return n > 0
        app = d.functional("any", z3.If(b, RV(1), RV(0)), n)
        d.fact_gens.setdefault(app.decl().name(), any_facts); return app == 1
    def any_facts(app, ts):
        r = d.rec(app); n = r["n"]; i = witness(app, "wit"); out = [z3.Or(app == 0, app == 1)]
        c = r["body"].children()[0] if z3.is_app_of(r["body"], z3.Z3_OP_ITE) else r["body"] == 1
        out.append(z3.Implies(app == 1, z3.And(i >= 0, i < n, subst(c, [(Z(), i)]))))
        for t in ts: out.append(z3.Implies(z3.And(t >= 0, t < n, subst(c, [(Z(), t)])), app == 1))
        return out
    d.quant = quant; d.np_any = np_any
    h("numpy.any")(np_any)
    def np_all(x, axis=None, **k):
        return UN["not"](np_any(UN["not"](x), axis=axis))
    d.np_all = np_all; h("numpy.all")(np_all)
    h("numpy.count_nonzero")(lambda x, axis=None: red(f_sum)(un(lambda a, o: (z3.If(a if a.sort() == B else a != 0, RV(1), RV(0)), o))(d.arr(x)), axis=axis))
    # sorting: a nondecreasing rearrangement
    def sort(x, axis=-1, **k):
        a = d.arr(x)
        if a.ndim != 1 or a.filt is not None: raise Unsupported("sort")
        p = perm(a); return Arr(a.shape_, subst(a.body, [(K[0], p(K[0]))]), T)
    def perm(a):
        key = ("perm", a.body.get_id(), a.shape_[0].get_id()); d.keep.append(a)
        if key not in d.keymap:
            nm = f"perm#{len(d.keymap)}"; f = z3.Function(nm, I, I); d.keymap[key] = f; n = a.shape_[0]; body = a.body
            d.fact_gens[nm] = lambda app, ts: [z3.Implies(z3.And(app.children()[0] >= 0, app.children()[0] < n), z3.And(app >= 0, app < n))]
            def pair(x, y):
                i, j = x.children()[0], y.children()[0]; bi, bj = subst(body, [(K[0], x)]), subst(body, [(K[0], y)])
                rng = z3.And(i >= 0, i < n, j >= 0, j < n)
                return [z3.Implies(z3.And(rng, i <= j), bi <= bj), z3.Implies(z3.And(rng, j <= i), bj <= bi), z3.Implies(z3.And(rng, x == y), i == j)]
            d.pair_facts[nm] = pair
        return d.keymap[key]
    d.perm = perm
    h("numpy.sort")(sort)
    h("numpy.argsort")(lambda x, *a, **k: (lambda v: Arr(v.shape_, perm(v)(K[0])))(d.arr(x)))
    h("numpy.round", "numpy.around")(un(lambda a, o: (z3.Function("round", R, R)(real(a)), o)))
    def diff(x, *a, **k):
        v = d.arr(x); n = z3.simplify(v.shape_[0] - 1)
        return binary("sub", getitem(v, slice(1, None)), getitem(v, slice(None, -1)))
    h("numpy.diff")(diff)
    def diag(x, k=0):
        a = d.arr(x)
        if a.ndim == 1: return Arr((a.shape_[0], a.shape_[0]), z3.If(K[0] == K[1], real(a.body), RV(0)), a.ok)
        return Arr((a.shape_[0],), subst(a.body, [(K[1], K[0])]), subst(a.ok, [(K[1], K[0])]))
    h("numpy.diag", "numpy.diagonal")(diag)
    def outer(a, b):
        a, b = d.arr(a), d.arr(b); return binary("mul", reshape(a, -1, 1), reshape(b, 1, -1))
    h("numpy.outer")(outer)
    def matmul(a, b):
        a, b = d.arr(a), d.arr(b)
        if a.ndim == 2 and b.ndim == 2:
            e = d.sum_term(real(subst(a.body, [(K[1], Z())])) * real(subst(b.body, [(K[0], Z())])), a.shape_[1]); return Arr((a.shape_[0], b.shape_[1]), e, And(T))
        if a.ndim == 2 and b.ndim == 1:
            return Arr(a.shape_[:1], d.sum_term(real(subst(a.body, [(K[1], Z())])) * real(subst(b.body, [(K[0], Z())])), a.shape_[1]))
        if a.ndim == 1 and b.ndim == 1: return Num(d.sum_term(real(subst(a.body, [(K[0], Z())])) * real(subst(b.body, [(K[0], Z())])), a.shape_[0]))
        raise Unsupported("matmul")
    d.np_matmul = matmul; h("numpy.matmul", "numpy.dot")(matmul)
    # distribution functions: named constants / uninterpreted with sign and range contracts
    def dist(path, lo, hi, mono=True):
        nm = path.replace(".", "_")
        def f(*a, **k):
            xs = [d.num(x) for x in a] + [d.num(v) for _, v in sorted(k.items())]
            fn = z3.Function(nm + f"/{len(xs)}", *([R] * len(xs)), R); app = fn(*[p_term(poly(real(x.e))) for x in xs])
            d.fact_gens.setdefault(fn.name(), lambda ap, ts: ([ap > lo] if lo is not None else []) + ([ap < hi] if hi is not None else []))
            return Num(app, And(*[x.ok for x in xs]))
        return f
    for p_, lo, hi in (("scipy.stats.chi2.ppf", 0, None), ("scipy.stats.chi2.cdf", 0, 1), ("scipy.stats.gamma.cdf", 0, 1), ("scipy.stats.norm.cdf", 0, 1), ("scipy.stats.norm.pdf", 0, None), ("scipy.stats.norm.ppf", None, None), ("scipy.stats.gamma.ppf", 0, None)):
        h(p_)(dist(p_, lo, hi))
    def f_medc(body, ok, n, filt, **k):
        app = d.functional("medcouple", real(body), n, filt)
        d.fact_gens.setdefault(app.decl().name(), lambda a, ts: [a >= -1, a <= 1]); return app, ok
    h("statsmodels.stats.stattools.medcouple")(lambda x, axis=0: red(f_medc)(x, axis=axis))
    d.red = red

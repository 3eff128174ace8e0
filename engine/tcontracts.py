"""contracts of numpy / scipy / sklearn / statsmodels for domain T (normal forms)"""
import builtins, math, itertools, types, copy
from trun import *
import trun, tdom, core
from tdom import *

def axis_of(x, axis):
    if axis is None: return None
    a = int(axis) if not isinstance(axis, tuple) else axis
    return a + len(x.shape_) if a < 0 else a

def reduce_(x, axis, f, dt="f", keepdims=False):
    """f(v, dim, body, cond) over one axis (or over all, one after the other is not assumed: f is given the flattened array when 1-D)"""
    x = arr(x)
    if axis is None and len(x.shape_) != 1:
        if len(x.shape_) == 0: return x
        nd = [d for d in range(len(x.shape_)) if not (x.shape_[d] is ONE and x.filt[d] is ONE)]
        if len(nd) <= 1 and x.flat is None:
            keep = nd[0] if nd else 0
            b = subst(x.body, {Kn(d): ZERO for d in range(len(x.shape_)) if d != keep})
            return reduce_(A((x.shape_[keep],), ren(b, [(keep, 0)]), x.dt, (ren(x.filt[keep], [(keep, 0)]),)), 0, f, dt)
        return None
    if x.flat is not None: return None
    ax = 0 if axis is None else axis_of(x, axis); v = fresh("r"); vv = var(v)
    s = {Kn(d): (vv if d == ax else KV[d if d < ax else d - 1]) for d in range(len(x.shape_))}
    body = subst(x.body, s); cond = subst(x.filt[ax], s)
    sh = x.shape_[:ax] + x.shape_[ax + 1:]; fl = [ren(g, [(d, d if d < ax else d - 1)]) for d, g in enumerate(x.filt) if d != ax]
    r = f(v, x.shape_[ax], body, cond)
    if keepdims: 
        r = subst(r, {Kn(d): KV[d if d < ax else d + 1] for d in range(len(sh))}); sh = sh[:ax] + (ONE,) + sh[ax:]; fl = fl[:ax] + [ONE] + fl[ax:]
    return A(sh, r, dt, fl)

def flat_sum(x, mulby=ONE):
    p = mul(x.body, mulby)
    if x.flat is not None: p = mul(p, x.flat)
    vs = []
    for d, n in enumerate(x.shape_):
        v = fresh("r"); p = subst(mul(p, x.filt[d]), {Kn(d): var(v)}); vs.append((v, n))
    for v, n in vs: p = sum_(v, n, p)
    return p

def install(D):
    D.madpos = getattr(D, "madpos", False)
    H = D.handlers; D.values.update({"numpy.pi": math.pi, "numpy.e": math.e, "numpy.newaxis": None, "numpy.nan": R_(of(mk("x", "const:nan", nan=True))), "numpy.inf": R_(of(mk("x", "const:inf", pos=True)))})
    def np(*names):
        def dec(f):
            for n in names: H["numpy." + n] = f
            return f
        return dec
    def reg(*names):
        def dec(f):
            for n in names: H[n] = f
            return f
        return dec
    # ------------------------------------------------ elementwise
    def un(name, f, dt="f"): H["numpy." + name] = lambda x, *a, **k: maskedout(lift(f, x, dt=dt), k)
    def maskedout(r, k):
        if "where" in k and k.get("out") is not None:
            w, o = k["where"], k["out"]; return H["numpy.where"](w, r, o)
        return r
    for nm, f in dict(absolute=absp, abs=absp, fabs=absp, sqrt=lambda p: pw(p, Fr(1, 2)), square=lambda p: power(p, 2), log=logp, exp=lambda p: fun("exp", p, pos=True), tanh=lambda p: fun("tanh", p), sign=signp, negative=lambda p: scale(p, -1), reciprocal=inv, cbrt=lambda p: pw(p, Fr(1, 3)),
                      log1p=lambda p: logp(add(p, ONE)), expm1=lambda p: fun("exp", p, pos=True) - ONE, positive=lambda p: p).items(): un(nm, f)
    un("isnan", isnanp, "b"); un("isinf", lambda p: ZERO, "b"); un("isfinite", lambda p: notp(isnanp(p)), "b"); un("logical_not", notp, "b")
    un("floor", floorp); un("ceil", lambda p: scale(floorp(scale(p, -1)), -1)); un("rint", lambda p: fun("rint", p))
    def bi(name, f, dt=None): H["numpy." + name] = lambda x, y, *a, **k: maskedout(lift(f, x, y, dt=dt), k)
    for nm, f in dict(add=add, subtract=lambda a, b: a - b, multiply=mul, divide=lambda a, b: mul(a, inv(b)), true_divide=lambda a, b: mul(a, inv(b)), power=powx, maximum=maxp, minimum=minp, fmax=maxp, fmin=minp).items(): bi(nm, f)
    for nm, f in dict(less=lambda a, b: gt0(b - a), greater=lambda a, b: gt0(a - b), less_equal=lambda a, b: ge0(b - a), greater_equal=lambda a, b: ge0(a - b), equal=lambda a, b: eq0(a - b), not_equal=lambda a, b: notp(eq0(a - b)), logical_and=mul, logical_or=orp, logical_xor=lambda a, b: a + b - scale(mul(a, b), 2)).items(): bi(nm, f, "b")
    @np("where")
    def where_(c, a=None, b=None):
        if a is None:
            c = arr(c)
            if len(c.shape_) != 1: raise Unsupported("np.where on several dimensions")
            v = fresh("w"); body = mul(subst(c.body, {Kn(0): var(v)}), subst(c.filt[0], {Kn(0): var(v)})); n = sum_(v, c.shape_[0], body)
            return (A((n,), nonzero(v, c.shape_[0], body, KV[0]), "i"),)
        return lift(where, c, a, b, dt=rdt([arr(a), arr(b)]))
    def nonzero(v, dim, body, k): return matf("nonzero", [v], (dim,), (body,), (k,))
    D.nonzero = nonzero
    @np("nonzero", "flatnonzero")
    def nonz(c): return where_(c)
    H["numpy.flatnonzero"] = lambda c: where_(c)[0]
    @np("argwhere")
    def argwhere(c): return where_(c)[0][:, None]
    @np("clip")
    def clip(x, a, b, **k):
        r = x if a is None else H["numpy.maximum"](x, a); return r if b is None else H["numpy.minimum"](r, b)
    # ------------------------------------------------ construction
    def shp(s): return tuple(P_(x) for x in s) if isinstance(s, (tuple, list)) else (P_(s),)
    def dtc(dt, d="f"):
        if dt is None: return d
        s = dt.c if isinstance(dt, DType) else getattr(dt, "_path", None) or getattr(dt, "__name__", str(dt)); s = str(s).split(".")[-1]
        return "i" if s.startswith("int") or s.startswith("uint") or s == "i" else "b" if s.startswith("bool") or s == "b" else "f"
    H["numpy.zeros"] = lambda s, dtype=None, **k: A(shp(s), ZERO, dtc(dtype)); H["numpy.ones"] = lambda s=None, dtype=None, shape=None, **k: A(shp(s if shape is None else shape), ONE, dtc(dtype)); H["numpy.empty"] = H["numpy.zeros"]
    H["numpy.full"] = lambda s=None, v=None, dtype=None, shape=None, fill_value=None, **k: A(shp(s if shape is None else shape), P_(v if fill_value is None else fill_value), arr(v if fill_value is None else fill_value).dt if dtype is None else dtc(dtype))
    def like(v): return lambda x, *a, dtype=None, **k: (lambda y: A(y.shape_, v if v is not None else P_(a[0] if a else k["fill_value"]), y.dt if dtype is None else dtc(dtype), y.filt))(arr(x))
    H["numpy.zeros_like"] = like(ZERO); H["numpy.ones_like"] = like(ONE); H["numpy.full_like"] = like(None); H["numpy.empty_like"] = like(ZERO)
    H["numpy.eye"] = H["numpy.identity"] = lambda n, **k: A((P_(n), P_(n)), delta(KV[0], KV[1]))
    @np("arange")
    def arange(*a, **k):
        a = [P_(x) for x in a]
        if len(a) == 1: return A((a[0],), KV[0], "i")
        st = a[2] if len(a) > 2 else ONE
        if st is ONE: return A((a[1] - a[0],), add(a[0], KV[0]), "i")
        if isconst(st) and cval(st) == -1: return A((a[0] - a[1],), a[0] - KV[0], "i")
        raise Unsupported("arange with a step")
    @np("array", "asarray", "ascontiguousarray", "asanyarray")
    def array(x, dtype=None, copy=True, **k):
        if isinstance(x, FrameT): x = x.data
        y = arr(x)
        r = A(y.shape_, y.body, y.dt if dtype is None else dtc(dtype), y.filt, flat=y.flat)
        return r
    H["numpy.asarray"] = H["numpy.asanyarray"] = lambda x, dtype=None, **k: (x.data if isinstance(x, FrameT) else x) if isinstance(x, (A, FrameT)) and (dtype is None or dtc(dtype) == (x.data if isinstance(x, FrameT) else x).dt) else array(x, dtype)
    H["numpy.copy"] = lambda x, **k: array(x); H["method.copy"] = lambda x, **k: A(x.shape_, x.body, x.dt, x.filt, flat=x.flat)
    H["method.astype"] = lambda x, t=None, dtype=None, copy=True, **k: astype(x, dtc(t if t is not None else dtype))
    def astype(x, c):
        if c == "i" and x.dt == "f":
            return A(x.shape_, truncp(x.body), "i", x.filt, flat=x.flat)
        if c == "b" and x.dt != "b": return A(x.shape_, notp(eq0(x.body)), "b", x.filt)
        return A(x.shape_, x.body, c, x.filt, flat=x.flat)
    def truncp(p): return floorp(p) if nonneg(p) or True else p
    D.truncp = truncp
    def reshape(x, *s, **k):
        x = arr(x)
        if len(s) == 1 and isinstance(s[0], (tuple, list)): s = tuple(s[0])
        s = [P_(v) for v in s]; m1 = const(-1)
        if x.flat is not None: 
            if len(s) == 1: return x
            raise Unsupported("reshape of a selection")
        # axes of length one are dropped/added; anything else must keep the order of the axes
        src = [d for d in range(len(x.shape_)) if not (x.shape_[d] is ONE and x.filt[d] is ONE)]
        tgt = [i for i, v in enumerate(s) if v is not ONE]
        if len(src) != len(tgt):
            if len(tgt) == 0 and len(src) == 1 and False: pass
            if len(tgt) == 1 and len(src) == 0: src = []; 
            elif len(src) == 1 and len(tgt) == 0: raise Unsupported("reshape")
            else: raise Unsupported(f"reshape of {tuple(map(show, x.shape_))} to {tuple(map(show, s))}")
        sub = {Kn(d): ZERO for d in range(len(x.shape_))}; sh = [ONE] * len(s); fl = [ONE] * len(s)
        for d, i in zip(src, tgt):
            if s[i] is not m1 and s[i] is not x.dim(d): raise Unsupported("reshape to another length")
            sub[Kn(d)] = KV[i]; sh[i] = x.shape_[d]; fl[i] = ren(x.filt[d], [(d, i)])
        r = A(sh, subst(x.body, sub), x.dt, fl, root=x.root); x.mkview(r); r.back = lambda r_: x.set(subst(r_.body, {Kn(i): KV[d] for d, i in zip(src, tgt)}))
        return r
    H["method.reshape"] = reshape; H["numpy.reshape"] = reshape
    def flatten(x, *a, **k):
        x = arr(x)
        if x.flat is not None or len(x.shape_) == 1: return A(x.shape_, x.body, x.dt, x.filt, flat=x.flat)
        try: r = reshape(x, -1); return A(r.shape_, r.body, r.dt, r.filt)
        except Unsupported: return A(x.shape_, x.body, x.dt, x.filt, flat=ONE)
    H["method.flatten"] = flatten; H["method.ravel"] = flatten; H["numpy.ravel"] = flatten; H["method.squeeze"] = lambda x, *a: reshape(x, -1) if len(x.shape_) > 1 else x; H["numpy.squeeze"] = H["method.squeeze"]
    H["method.item"] = lambda x: R_(P_(x)); H["method.tolist"] = lambda x: aslist(x) if x.shape_ else x
    H["method.fill"] = lambda x, v: setitem(x, slice(None), v)
    H["method.transpose"] = lambda x, *a: x.T; H["numpy.transpose"] = lambda x, *a: arr(x).T
    H["numpy.atleast_2d"] = lambda x: arr(x) if len(arr(x).shape_) == 2 else arr(x)[None, :]; H["numpy.atleast_1d"] = lambda x: arr(x) if arr(x).shape_ else arr(x)[None]
    H["numpy.expand_dims"] = lambda x, axis: arr(x)[(slice(None),) * axis_of(arr(x), axis) + (None,)] if axis >= 0 else arr(x)[..., None]
    H["numpy.shape"] = lambda x: arr(x).shape; H["numpy.size"] = lambda x: arr(x).size; H["numpy.ndim"] = lambda x: arr(x).ndim
    H["numpy.isscalar"] = lambda x: not (isinstance(x, A) and x.shape_)
    H["numpy.shares_memory"] = lambda a, b: a.root is b.root
    def joinc(xs, axis):
        xs = [arr(x) for x in xs]; r = len(xs[0].shape_); ax = axis if axis >= 0 else axis + r
        off = ZERO; body = ZERO
        if any(f is not ONE for x in xs for f in x.filt): raise Unsupported("joining selections")
        if len(xs) == 1: return xs[0]
        for i, x in enumerate(xs):
            n = x.shape_[ax]
            if n is ONE: c = delta(KV[ax], off); b = subst(x.body, {Kn(ax): ZERO})
            else:
                c = ONE
                if i: c = mul(c, ge0(KV[ax] - off))
                if i < len(xs) - 1: c = mul(c, gt0(add(off, n) - KV[ax]))
                b = subst(x.body, {Kn(ax): KV[ax] - off})
            body = add(body, mul(c, b)); off = add(off, n)
        return A(xs[0].shape_[:ax] + (off,) + xs[0].shape_[ax + 1:], body, rdt(xs))
    D.joinc = joinc
    @np("concatenate")
    def concatenate(xs, axis=0, **k):
        xs = list(xs) if not isinstance(xs, SymList) else Unsupported
        return joinc(xs, axis)
    @np("hstack", "column_stack")
    def hstack(xs):
        if isinstance(xs, SymList):
            x = arr(xs.fn(KV[7]))     # every element a column (n, 1) or a vector
            if len(x.shape_) == 2 and x.shape_[1] is ONE: return A((x.shape_[0], xs.n), subst(x.body, {Kn(1): ZERO, Kn(7): KV[1]}), x.dt)
            if len(x.shape_) == 1: return A((x.shape_[0], xs.n), subst(x.body, {Kn(7): KV[1]}), x.dt)
            raise Unsupported("hstack of a list of matrices")
        xs = [arr(x) for x in xs]
        if all(len(x.shape_) == 1 for x in xs): return joinc(xs, 0)
        return joinc(xs, 1)
    @np("column_stack")
    def cstack(xs):
        if isinstance(xs, SymList): return hstack(xs)
        return joinc([arr(x)[:, None] if len(arr(x).shape_) == 1 else x for x in xs], 1)
    @np("vstack")
    def vstack(xs):
        if isinstance(xs, SymList): return arr(xs)
        return joinc([arr(x)[None, :] if len(arr(x).shape_) == 1 else x for x in xs], 0)
    @np("append")
    def append(x, v, axis=None): return joinc([x, arr(v) if arr(v).shape_ else arr(v)[None]], 0)
    @np("stack")
    def stack(xs, axis=0):
        r = arr(xs if isinstance(xs, SymList) else list(xs))
        if axis in (0,): return r
        if axis in (1, -1) and len(r.shape_) == 2: return r.T
        raise Unsupported("stack axis")
    @np("delete")
    def delete(x, idx, axis=None):
        x = arr(x); k = arr(idx)
        if axis is not None or len(x.shape_) != 1: raise Unsupported("np.delete of rows")
        t = fresh("w"); m = anyp(t, k.shape_[0], delta(KV[0], subst(k.body, {Kn(0): var(t)}))) if k.shape_ else delta(KV[0], k.body)
        w = where_(A(x.shape_, notp(m), "b"))[0]
        return x[w]
    @np("flip")
    def flip(x, axis=None):
        x = arr(x); ax = 0 if axis is None else axis_of(x, axis); return x[(slice(None),) * ax + (slice(None, None, -1),)]
    H["numpy.flipud"] = lambda x: flip(x, 0); H["numpy.fliplr"] = lambda x: flip(x, 1)
    @np("tile")
    def tile(x, reps):
        x = arr(x)
        if len(x.shape_) == 1 and isinstance(reps, tuple) and len(reps) == 2 and P_(reps[1]) is ONE: return A((P_(reps[0]),) + x.shape_, ren(x.body, [(0, 1)]), x.dt)
        raise Unsupported("np.tile")
    @np("repeat")
    def repeat(x, n, axis=None):
        x = arr(x)
        if not x.shape_: return A((P_(n),), x.body, x.dt)
        raise Unsupported("np.repeat")
    @np("diag")
    def diag(x):
        x = arr(x)
        if len(x.shape_) == 1: return A(x.shape_ * 2, mul(delta(KV[0], KV[1]), x.body), x.dt, x.filt * 2 if x.filt[0] is not ONE else None)
        return A(x.shape_[:1], subst(x.body, {Kn(1): KV[0]}), x.dt, x.filt[:1])
    H["numpy.diagonal"] = diag; H["method.diagonal"] = diag
    @np("fill_diagonal")
    def fill_diagonal(x, v):
        D.write(x); v = arr(v); x.set(where(delta(KV[0], KV[1]), v.body, x.body))
    H["numpy.outer"] = lambda a, b: lift(mul, arr(a)[:, None], arr(b)[None, :])
    H["numpy.dot"] = lambda a, b: matmul(a, b) if arr(a).shape_ and arr(b).shape_ else lift(mul, a, b); H["numpy.matmul"] = matmul; H["method.dot"] = matmul
    H["numpy.ix_"] = lambda *a: Ix([arr(x) for x in a])
    H["numpy.linalg.multi_dot"] = lambda xs: __import__("functools").reduce(matmul, xs)
    @np("trace")
    def trace(x): return H["numpy.sum"](diag(x))
    @np("round", "around")
    def round_(x, nd=0, decimals=None):
        nd = decimals if decimals is not None else nd
        return lift(lambda p: fun(f"round{nd}", p), x)
    @np("isclose")
    def isclose(a, b, *r, **k): return lift(lambda x, y: of(mk("bool", "isclose", x - y)), a, b, dt="b")
    @np("allclose", "array_equal")
    def allclose(a, b, *r, **k): return H["numpy.all"](isclose(a, b))
    H["numpy.array_equal"] = lambda a, b, **k: H["numpy.all"](arr(a) == arr(b)) if [x for x in arr(a).shape_] == [x for x in arr(b).shape_] else False
    @np("nan_to_num")
    def nan_to_num(x, **k): return lift(lambda p: where(isnanp(p), ZERO, p), x)
    # ------------------------------------------------ reductions
    def count(v, dim, body, cond): return sum_(v, dim, cond)
    def sum1(v, dim, body, cond): return sum_(v, dim, mul(cond, body))
    @np("sum")
    def sum__(x, axis=None, keepdims=False, **k):
        if isinstance(x, FrameT): return H["frame.sum"](x, axis)
        x = arr(x); dt = "i" if x.dt in ("b", "i") else "f"
        if not x.shape_: return x
        if axis is None: return A((), flat_sum(x), dt)
        return reduce_(x, axis, sum1, dt, keepdims)
    H["numpy.count_nonzero"] = lambda x, axis=None: sum__(lift(lambda p: p, x) if arr(x).dt == "b" else (arr(x) != 0), axis)
    @np("mean")
    def mean(x, axis=None, keepdims=False, **k):
        x = arr(x)
        if not x.shape_: return x
        if axis is None: return A((), mul(flat_sum(x), inv(x.size_())), "f")
        return reduce_(x, axis, lambda v, n, b, c: mul(sum1(v, n, b, c), inv(count(v, n, b, c))), "f", keepdims)
    @np("average")
    def average(x, axis=None, weights=None):
        if weights is None: return mean(x, axis)
        w = arr(weights); x = arr(x)
        if axis is None or len(x.shape_) == 1: return sum__(x * w) / sum__(w)
        return sum__(x * (w[:, None] if axis == 0 else w), axis) / sum__(w)
    @np("var")
    def var_(x, axis=None, ddof=0, keepdims=False, **k):
        x = arr(x)
        if axis is None and (len(x.shape_) > 1 or x.flat is not None):
            m = mean(x); n = x.size_(); return A((), mul(flat_sum(lift(lambda a, b: power(a - b, 2), x, m)), inv(n - const(ddof))), "f")
        def f(v, n, b, c):
            cn = count(v, n, b, c); m = mul(sum1(v, n, b, c), inv(cn)); return mul(sum_(v, n, mul(c, power(b - m, 2))), inv(cn - P_(ddof)))
        return reduce_(x, axis, f, "f", keepdims)
    @np("std")
    def std(x, axis=None, ddof=0, **k): return lift(lambda p: pw(p, Fr(1, 2)), var_(x, axis, ddof))
    def aggf(name, equiv="loc", odd=False, extra=(), sub=None):
        def f(x, axis=None, **k):
            x = arr(x)
            if not x.shape_: return x
            r = reduce_(x, axis, lambda v, n, b, c: agg(name, v, n, b, extra, equiv, odd, c), "f", k.get("keepdims", False))
            if r is None:
                # all entries of a matrix: nested names of the row and column
                v, w = fresh("r"), fresh("r")
                if x.flat is not None or any(f_ is not ONE for f_ in x.filt) or len(x.shape_) > 2 or True: return allagg(name, x, equiv, odd, extra)
            return r
        return f
    def allagg(name, x, equiv, odd, extra):
        # a functional of all selected entries of a matrix
        body = x.body; cond = x.flat if x.flat is not None else ONE
        for d, g in enumerate(x.filt): cond = mul(cond, g)
        dep = {m: c for m, c in body.t if any(Kn(d) in tdom._tab[i].fv for i, _ in m for d in range(len(x.shape_)))}
        B = poly({m: c for m, c in body.t if m not in dep}) if equiv == "loc" else ZERO
        f, q = content(poly(dep), ok=lambda a: not any(Kn(d) in a.fv for d in range(len(x.shape_)))) if equiv and dep else (ONE, poly(dep) if equiv else body)
        return A((), add(mul(f, matf("all:" + name, [Kn(d) for d in range(len(x.shape_))], tuple(x.shape_), (q, cond), extra)), B), "f")
    D.allagg = allagg; D.aggf = aggf
    def opaque(name, *args, out=(), pos=False):
        """result of a function that depends on nothing but these values (a frame obligation): scalar, or an array of the given shape"""
        vs, dims, bodies, ex = [], [], [], []
        for a in args:
            if a is None or isinstance(a, (str, bool)): name += f":{a}"; continue
            if isinstance(a, dict): 
                for k_, v_ in sorted(a.items()): name += f":{k_}"; args = args + (v_,)
                continue
            x = arr(a)
            if x.flat is not None: raise Unsupported("selection passed to an opaque function")
            ns = [fresh("o") for _ in x.shape_]; s = {Kn(d): var(v) for d, v in enumerate(ns)}
            vs += ns; dims += list(x.shape_); bodies.append(subst(x.body, s)); bodies += [subst(f, s) for f in x.filt]
        if not vs: vs, dims = [fresh("o")], [ONE]
        return A(out, matf("fn:" + name, vs, tuple(dims), tuple(bodies), tuple(KV[i] for i in range(len(out)))), "f")
    D.opaque = opaque
    H["numpy.median"] = aggf("median", "loc", True)
    H["numpy.nanmedian"] = aggf("nanmedian", "loc", True)
    def nanred(f):
        def g(x, axis=None, **k):
            x = arr(x); ok = lift(lambda p: notp(isnanp(p)), x, dt="b")
            return f(x, ok, axis, **k)
        return g
    H["numpy.nansum"] = nanred(lambda x, ok, axis, **k: sum__(x * ok, axis)); H["numpy.nanmean"] = nanred(lambda x, ok, axis, **k: sum__(x * ok, axis) / sum__(ok, axis))
    H["numpy.nanstd"] = nanred(lambda x, ok, axis, **k: lift(lambda p: pw(p, Fr(1, 2)), H["numpy.nanvar"](x, axis, **k)))
    def nanvar(x, ok, axis, ddof=0, **k):
        n = sum__(ok, axis); m = sum__(x * ok, axis) / n; return sum__(lift(lambda a, b, o: mul(o, power(a - b, 2)), x, m, ok), axis) / (n - ddof)
    H["numpy.nanvar"] = nanred(nanvar)
    for nm in ("min", "max"):
        f = aggf(nm, "loc", False)
        def g(x, axis=None, f=f, nm=nm, **k):
            if isinstance(x, (list, tuple)) and not any(isinstance(y, A) and y.shape_ for y in x) and len(x) < 8:
                r = P_(x[0])
                for y in x[1:]: r = maxp(r, P_(y)) if nm == "max" else minp(r, P_(y))
                return S_(r, arr(list(x)).dt) 
            return f(x, axis, **k)
        H["numpy." + nm] = H["numpy.a" + nm] = g; H["numpy.nan" + nm] = aggf("nan" + nm, "loc", False)
    @np("percentile", "quantile", "nanquantile", "nanpercentile")
    def percentile(x, q, axis=None, **k):
        if isinstance(q, (list, tuple)): return arr([percentile(x, y, axis) for y in q])
        return aggf("quantile", "loc", False, (P_(q),))(x, axis)
    H["numpy.quantile"] = lambda x, q, axis=None, **k: percentile(x, lift(lambda a: scale(a, 100), q) if not isinstance(q, (list, tuple)) else [lift(lambda a: scale(a, 100), y) for y in q], axis)
    H["numpy.nanquantile"] = H["numpy.quantile"]
    def anyall(x, axis, neg):
        x = arr(x)
        if isinstance(x.body, Poly) and x.dt != "b": x = lift(lambda p: notp(eq0(p)), x, dt="b")
        def f(v, n, b, c):
            b = notp(b) if neg else b; r = anyp(v, n, mul(c, b)); return notp(r) if neg else r
        if not x.shape_: return x
        if axis is None and (len(x.shape_) > 1 or x.flat is not None):
            p = notp(x.body) if neg else x.body
            if x.flat is not None: p = mul(p, x.flat)
            for d in range(len(x.shape_)):
                v = fresh("r"); p = anyp(v, x.shape_[d], subst(mul(p, x.filt[d]), {Kn(d): var(v)}))
            return A((), notp(p) if neg else p, "b")
        return reduce_(x, axis, f, "b")
    H["numpy.any"] = lambda x, axis=None, **k: anyall(x, axis, False); H["numpy.all"] = lambda x, axis=None, **k: anyall(x, axis, True)
    def along(x, axis, f, dt):
        """f(v, dim, body, k): values along the axis"""
        x = arr(x); r = len(x.shape_); ax = axis_of(x, -1 if axis is None else axis)
        if x.flat is not None: raise Unsupported("sorting a selection")
        v = fresh("r"); n = x.shape_[ax]; cond = subst(x.filt[ax], {Kn(ax): var(v)})
        nn = n if cond is ONE else sum_(v, n, cond)
        return A(x.shape_[:ax] + (nn,) + x.shape_[ax + 1:], f(v, n, subst(x.body, {Kn(ax): var(v)}), KV[ax], cond), dt, [ONE if d == ax else g for d, g in enumerate(x.filt)])
    @np("sort")
    def sort(x, axis=-1, **k): return along(x, axis, lambda v, n, b, kk, c: ordstat(v, n, b, kk, c), arr(x).dt)
    H["method.sort"] = lambda x, *a, **k: (D.write(x), x.set(sort(x, *a).body))[0] and None
    def noc(c):
        if c is not ONE: raise Unsupported("argsort of a selection")
    @np("argsort")
    def argsort_(x, axis=-1, **k):
        if isinstance(x, (list, SymList)): x = arr(x)
        return along(x, axis, lambda v, n, b, kk, c: (noc(c), argsort(v, n, b, kk))[1], "i")
    @np("partition")
    def partition(x, k, axis=-1): return sort(x, axis)
    def argm(kind):
        def f(x, axis=None, **k):
            x = arr(x)
            return reduce_(x, axis, lambda v, n, b, c: (noc(c), argsort(v, n, b, ZERO, kind))[1], "i")
        return f
    H["numpy.argmin"] = argm("argmin"); H["numpy.argmax"] = argm("argmax")
    @reg("scipy.stats.rankdata")
    def rankdata(x, axis=None, **k): return along(x, axis, lambda v, n, b, kk, c: (noc(c), argsort(v, n, b, kk, "rank"))[1], "f")
    @np("cumsum")
    def cumsum(x, axis=None):
        x = arr(x)
        if len(x.shape_) != 1: raise Unsupported("cumsum of a matrix")
        v = fresh("r"); return A(x.shape_, sum_(v, x.shape_[0], mul(ge0(KV[0] - var(v)), mul(subst(x.filt[0], {Kn(0): var(v)}), subst(x.body, {Kn(0): var(v)})))), x.dt if x.dt != "b" else "i", x.filt)
    @np("prod")
    def prod(x, axis=None, **k):
        def f(v, n, b, c): d, bb = bind([v], n, where(c, b, ONE)); return of(mk("prod", (d,), bb, pos=positive(b)))
        return reduce_(x, axis, f)
    @np("diff")
    def diff(x): 
        x = arr(x); return A((x.shape_[0] - ONE,), subst(x.body, {Kn(0): add(KV[0], ONE)}) - x.body, x.dt)
    @np("cov")
    def cov(x, y=None, rowvar=True, ddof=None, bias=False, **k):
        x = arr(x)
        if rowvar and len(x.shape_) == 2: x = x.T
        if len(x.shape_) == 1: return var_(x, ddof=1)
        n = x.dim(0); v = fresh("r"); s = lambda d: subst(x.body, {Kn(0): var(v), Kn(1): KV[d]}); f = subst(x.filt[0], {Kn(0): var(v)})
        m = lambda d: mul(sum_(v, x.shape_[0], mul(f, s(d))), inv(n))
        dd = 1 if ddof is None else ddof
        body = mul(sum_(v, x.shape_[0], mul(f, mul(s(0) - m(0), s(1) - m(1)))), inv(n - const(0 if bias else dd)))
        return A((x.shape_[1],) * 2, body, "f", (ren(x.filt[1], [(1, 0)]), x.filt[1]))
    @np("corrcoef")
    def corrcoef(x, rowvar=True, **k):
        c = cov(x, rowvar=rowvar)
        dg = lambda d: subst(c.body, {Kn(0): KV[d], Kn(1): KV[d]})
        body = mul(c.body, mul(pw(dg(0), Fr(-1, 2)), pw(dg(1), Fr(-1, 2))))
        return A(c.shape_, where(delta(KV[0], KV[1]), ONE, body))
    @np("setdiff1d")
    def setdiff1d(a, b, **k):
        a, b = arr(a), arr(b); t = fresh("w")
        if a.body is not KV[0]: raise Unsupported("setdiff1d")
        if b.dt == "b": raise Unsupported("setdiff1d of masks")
        m = anyp(t, b.shape_[0], mul(subst(b.filt[0], {Kn(0): var(t)}), delta(KV[0], subst(b.body, {Kn(0): var(t)}))))
        return where_(A(a.shape_, notp(m), "b"))[0]
    H["numpy.isin"] = H["numpy.in1d"] = lambda a, b, **k: (lambda a, b, t: A(a.shape_, anyp(t, b.shape_[0], delta(a.body, subst(b.body, {Kn(0): var(t)}))), "b"))(arr(a), arr(b), fresh("w"))
    @np("array_split")
    def array_split(x, m, axis=0):
        x = arr(x); q = P_(m); v = fresh("w")
        if isconst(q) and cval(q) == 1: return [x]
        # block k: rows start(k) .. start(k) + size(k)
        st = lambda k: fun("splitstart", x.shape_[0], q, k)
        def f(k):
            n = sym("splitsize", x.shape_[0], q, k, integer=True, pos=True); s = sym("splitstart", x.shape_[0], q, k, integer=True)
            return A((n,) + x.shape_[1:], subst(x.body, {Kn(0): add(s, KV[0])}), x.dt)
        return SymList(q, f)
    # ------------------------------------------------ linear algebra
    def mat(x):
        x = arr(x)
        if len(x.shape_) != 2: raise Unsupported("matrix expected")
        return x
    def inv_(x, name="inv"):
        x = mat(x); i, j = fresh("i"), fresh("j"); s = {Kn(0): var(i), Kn(1): var(j)}
        body = subst(x.body, s); n = x.shape_[0]
        if x.filt[0] is not ONE or x.filt[1] is not ONE:
            mi, mj = subst(x.filt[0], s), subst(x.filt[1], s)
            f0, fi, fj, q = split_ij(body, i, j)
            bl = add(mul(mul(mi, mj), q), mul(delta(var(i), var(j)), notp(mi)))
            r = mul(inv(f0), mul(inv(subst(fi, {i: KV[1]})), mul(inv(subst(fj, {j: KV[0]})), matinv(i, j, n, bl, KV[0], KV[1], name))))
            return A(x.shape_, r, "f", (ren(x.filt[1], [(1, 0)]), ren(x.filt[0], [(0, 1)])))
        return A(x.shape_[::-1], matinv(i, j, n, body, KV[0], KV[1], name))
    H["numpy.linalg.inv"] = inv_; H["scipy.linalg.pinvh"] = lambda x, *a, **k: inv_(x, D.pinv_name); H["numpy.linalg.pinv"] = lambda x, *a, **k: inv_(x, "pinv"); H["scipy.linalg.inv"] = inv_
    D.pinv_name = "inv"
    @np("linalg.det")
    def det_(x):
        x = mat(x); i, j = fresh("i"), fresh("j"); s = {Kn(0): var(i), Kn(1): var(j)}; body = subst(x.body, s)
        if x.filt[0] is not ONE: mi, mj = subst(x.filt[0], s), subst(x.filt[1], s); body = add(mul(mul(mi, mj), body), mul(delta(var(i), var(j)), notp(mi)))
        return R_(det(i, j, x.shape_[0], body))
    H["numpy.linalg.slogdet"] = lambda x: (lift(signp, det_(x)), lift(lambda p: logp(absp(p)), det_(x)))
    @np("linalg.eigh")
    def eigh(x, *a, **k):
        x = mat(x); i, j = fresh("i"), fresh("j"); b = subst(x.body, {Kn(0): var(i), Kn(1): var(j)}); n = x.shape_[0]
        return A((n,), eig(i, j, n, b, "eigval", None, KV[0])), A((n, n), eig(i, j, n, b, "eigvec", KV[0], KV[1]))
    H["scipy.linalg.eigh"] = eigh; H["numpy.linalg.eigvalsh"] = lambda x, *a, **k: eigh(x)[0]
    @np("linalg.norm")
    def norm(x, ord=None, axis=None, **k):
        if ord not in (None, 2, "fro"): raise Unsupported("norm")
        x = arr(x); s = sum__(lift(lambda p: power(p, 2), x), axis); return lift(lambda p: pw(p, Fr(1, 2)), s)
    @np("linalg.svd")
    def svd(x, *a, **k):
        x = mat(x); i, j = fresh("i"), fresh("j"); b = subst(x.body, {Kn(0): var(i), Kn(1): var(j)}); f, q = content(b, ok=lambda z: i not in z.fv and j not in z.fv)
        g = lambda nm, *ix: matf("svd" + nm, [i, j], x.shape_, (q,), ix)
        k_ = sym("svdrank", integer=True)
        return A((x.shape_[0],) * 2, g("U", KV[0], KV[1])), A((minp(*x.shape_),), mul(f, g("S", KV[0]))), A((x.shape_[1],) * 2, g("V", KV[0], KV[1]))
    @np("linalg.matrix_rank")
    def matrix_rank(x, *a, **k):
        x = mat(x); i, j = fresh("i"), fresh("j"); b = subst(x.body, {Kn(0): var(i), Kn(1): var(j)}); f, q = content(b, ok=lambda z: i not in z.fv and j not in z.fv)
        d, bb = bind([i, j], x.shape_, (q,)); p = of(mk("matf", d, "rank", bb, (), (), integer=True)); return A((), p, "i")
    @reg("scipy.linalg.sqrtm")
    def sqrtm(x):
        x = mat(x); i, j = fresh("i"), fresh("j"); b = subst(x.body, {Kn(0): var(i), Kn(1): var(j)}); f, q = content(b, ok=lambda z: i not in z.fv and j not in z.fv)
        return A(x.shape_, mul(pw(f, Fr(1, 2)), matf("sqrtm", [i, j], x.shape_, (q,), (KV[0], KV[1]))))
    @np("linalg.solve")
    def solve(a, b):
        a, b = mat(a), arr(b)
        if isconst(a.shape_[0]) and all(isconst(d) for d in b.shape_): return matmul(inv_(a), b)
        return matmul(inv_(a), b)
    # ------------------------------------------------ scipy.stats
    @reg("scipy.stats.median_abs_deviation")
    def mad(x, axis=0, scale=1.0, nan_policy=None, **k):
        x = arr(x); nm = "mad" if nan_policy != "omit" else "nanmad"
        r = reduce_(x, axis, lambda v, n, b, c: agg(nm, v, n, b, (), "scale", True, c))
        if r is None: r = allagg(nm, x, "scale", True, ())
        if D.madpos:
            for m, _ in r.body.t:
                for i, _ in m:
                    if tdom._tab[i].kind == "agg": tdom._tab[i].pos = True
        if scale == "normal": return r / R_(fun("normal_mad", pos=True))
        if isinstance(scale, str): raise Unsupported("scale")
        return r / scale if scale != 1.0 else r
    for dist in ("chi2", "norm", "gamma", "t", "f"):
        for fn_ in ("ppf", "cdf", "pdf", "sf"):
            def g(*a, dist=dist, fn_=fn_, **k):
                args = list(a) + [k[q] for q in sorted(k)]
                nm = f"{dist}.{fn_}"
                return lift(lambda *ps: fun(nm, *ps, pos=dist in ("chi2", "gamma") or fn_ in ("cdf", "pdf") and False, nan=nanable(ps)), *args)
            H[f"scipy.stats.{dist}.{fn_}"] = g
    H["scipy.special.gamma"] = lambda x: lift(lambda p: fun("Gamma", p, pos=True), x)
    def kend(vs, dims, bodies, idx, laws):
        """symmetric in the two samples"""
        a, b = bodies
        if a.id > b.id: a, b = b, a
        return matf("kendall", vs, dims, (a, b), idx, laws)
    tdom.MATF["kendall"] = kend
    @reg("scipy.stats.kendalltau")
    def kendalltau(x, y, **k):
        x, y = arr(x), arr(y); v = fresh("r"); s = {Kn(0): var(v)}
        def strip(p):
            dep = poly({m: c for m, c in p.t if any(v in tdom._tab[i].fv for i, _ in m)}); f, q = content(dep, ok=lambda a: v not in a.fv); return q
        a, b = strip(subst(x.body, s)), strip(subst(y.body, s))
        if a.id > b.id: a, b = b, a
        q = deperm(mul(of(mk("tup", a)), of(mk("tup2", b))), v)
        if q is not None:
            for i, e in q.t[0][0]:
                if tdom._tab[i].kind == "tup": a = tdom._tab[i].args[0]
                else: b = tdom._tab[i].args[0]
        r = A((), kend([v], (x.shape_[0],), (a, b), (), ()), "f")
        return types.SimpleNamespace(statistic=r, pvalue=None)
    tdom.ATOMS.setdefault("tup2", lambda p: of(mk("tup2", p)))
    H["statsmodels.stats.stattools.medcouple"] = aggf("medcouple", "inv", False)
    @np("apply_along_axis")
    def apply_along_axis(f, axis, x, *a, **k):
        x = arr(x); ax = axis_of(x, axis)
        if len(x.shape_) != 2: return f(x, *a, **k)
        l = D.comp(x.shape_[1 - ax], lambda j: f(x[:, A((), j, "i")] if ax == 0 else x[A((), j, "i")], *a, **k))
        r = arr(l); return r if len(r.shape_) == 1 else (r.T if ax == 0 else r)
    # ------------------------------------------------ random numbers
    D.grng = Rng(sym("global_random_state")); D.rngs = [D.grng]
    def newrng(state): r = Rng(state); D.rngs.append(r); return r
    @np("random.default_rng")
    def default_rng(seed=None):
        if isinstance(seed, Rng): return seed
        if seed is None: D.rngc = getattr(D, "rngc", 0) + 1; return newrng(sym(f"entropy:{D.rngc}:run{D.run}"))
        return newrng(fun("seed", P_(seed)))
    H["numpy.random.RandomState"] = default_rng
    @np("random.seed")
    def rseed(s=None):
        if s is None: D.rngc = getattr(D, "rngc", 0) + 1; D.grng.state = sym(f"entropy:{D.rngc}:run{D.run}")
        else: D.grng.state = fun("seed", P_(s))
    def choice(r, n, size=None, replace=True, p=None, **k):
        x = None
        if isinstance(n, A) and n.shape_: x = n; n = A((), n.dim(0), "i")
        n = P_(n); s = r.draw("choice", n, P_(size) if size is not None else ONE, ONE if replace is True else ZERO)
        idx = lambda k: sym("choice", s, n, k, integer=True)
        if size is None: i = A((), idx(ZERO), "i"); return i if x is None else x[i]
        i = A((P_(size),), idx(KV[0]), "i"); return i if x is None else x[i]
    H["numpy.random.choice"] = lambda *a, **k: choice(D.grng, *a, **k)
    def perm(r, n):
        if isinstance(n, A) and n.shape_: return n[perm(r, A((), n.dim(0), "i"))]
        s = r.draw("permutation", P_(n)); return A((P_(n),), sym("choice", s, P_(n), KV[0], integer=True), "i")
    H["numpy.random.permutation"] = lambda n: perm(D.grng, n)
    def cont(nm):
        def f(r, *a, size=None, **k):
            if size is None and a and isinstance(a[-1], tuple): size = a[-1]
            s = r.draw(nm); sh = () if size is None else shp(size); return A(sh, sym("draw:" + nm, s, *KV[:len(sh)]))
        return f
    for nm in ("normal", "uniform", "random", "standard_normal", "integers", "rand", "randn", "randint"):
        H["numpy.random." + nm] = lambda *a, nm=nm, **k: cont(nm)(D.grng, *a, **k); setattr(Rng, nm, cont(nm))
    Rng.choice = choice; Rng.permutation = perm
    D.rng_shuffle = None
    # ------------------------------------------------ models
    class LR:
        """least squares with intercept (sklearn.linear_model.LinearRegression)"""
        _lib_path = "sklearn.linear_model.LinearRegression"
        def __init__(self, fit_intercept=True):
            if fit_intercept is not True: raise Unsupported("LinearRegression without intercept")
        def fit(self, X, y, sample_weight=None):
            X, y = arr(X), arr(y); i, k = fresh("i"), fresh("k"); n, p = X.shape_
            w = X.filt[0]
            if y.filt[0] is not w: raise Unsupported("different selections of rows")
            if sample_weight is not None:
                sw = arr(sample_weight)
                if sw.filt[0] is not w: raise Unsupported("weights of other rows")
                w = mul(w, sw.body) if w is not ONE else sw.body
                f, w = content(w, ok=lambda a: Kn(0) not in a.fv)
            s = {Kn(0): var(i), Kn(1): var(k)}; Xb = subst(X.body, s); wb = subst(w, s)
            yb = subst(y.body, {Kn(0): var(i), Kn(1): ZERO}); two = len(y.shape_) == 2
            co = lambda j: ols(i, k, n, p, Xb, wb, yb, j)
            self.coef_ = A((ONE, p), co(KV[1])) if two else A((p,), co(KV[0]))
            self.intercept_ = A((ONE,), co("intercept")) if two else R_(co("intercept"))
            self.n_features_in_ = S_(p); return self
        def predict(self, X):
            X = arr(X)
            if len(self.coef_.shape_) == 2: return matmul(X, self.coef_.T) + self.intercept_
            return matmul(X, self.coef_) + self.intercept_
    D.LR = LR; H["sklearn.linear_model.LinearRegression"] = lambda *a, **k: LR(*a, **k)
    class WLSRes:
        def predict(self, X=None): return matmul(arr(X), self.params)
    class WLS:
        def __init__(self, endog, exog, weights=None): self.y = arr(endog); self.X = arr(exog); self.w = None if weights is None else arr(weights)
        def fit(self):
            X, y = self.X, self.y; i, k = fresh("i"), fresh("k"); n, p = X.shape_; w = X.filt[0]
            if self.w is not None: w = mul(w, self.w.body) if w is not ONE else self.w.body
            f, w = content(w, ok=lambda a: Kn(0) not in a.fv); s = {Kn(0): var(i), Kn(1): var(k)}
            q = matf("wls", [i, k], (n, p), (subst(X.body, s), subst(w, s), subst(y.body, {Kn(0): var(i), Kn(1): ZERO})), (KV[0],))
            if D.branch(of(mk("bool", "linalgerror", q))): raise D.LinAlgError("Singular matrix")
            r = WLSRes(); r.params = A((p,), q); r.resid = y - matmul(X, r.params); return r
    H["statsmodels.api.WLS"] = lambda endog=None, exog=None, weights=None, **k: WLS(endog, exog, weights); H["statsmodels.api.OLS"] = lambda endog, exog: WLS(endog, exog)
    H["statsmodels.api.add_constant"] = lambda X, **k: joinc([A((arr(X).shape_[0], ONE), ONE), arr(X)], 1)
    @reg("scipy.optimize.minimize_scalar")
    def minimize_scalar(f, bounds=None, method=None, **k):
        # the result is a functional of the objective (as a function of lambda) and the bounds
        v = fresh("lam"); b = arr(bounds)
        obj = D.guarded(lambda: f(R_(var(v))))
        q = matf("minimize", [v], (ONE,), (P_(obj),), tuple(P_(b[i]) for i in range(2)) + ((P_(str_(method)),) if False else ()))
        return types.SimpleNamespace(x=R_(q), success=True)
    D.LinAlgError = __import__("numpy").linalg.LinAlgError
    D.values["numpy.linalg.LinAlgError"] = D.LinAlgError
    H["tqdm.auto.tqdm"] = lambda it, *a, **k: it
    E = "sklearn.covariance.EmpiricalCovariance"
    H[E + "#_validate_data"] = lambda self, X, **k: (setattr(self, "n_features_in_", S_(arr(X).shape_[1])), arr(X))[1]
    def set_cov(self, c):
        c = arr(c); self.covariance_ = c
        self.precision_ = H["scipy.linalg.pinvh"](c) if getattr(self, "store_precision", True) else None
    H[E + "#_set_covariance"] = set_cov
    class PCA:
        _lib_path = "sklearn.decomposition.PCA"
        def __init__(self, n_components=None): pass
        def fit(self, X):
            X = arr(X); self.mean_ = mean(X, 0); i, j = fresh("i"), fresh("j"); n, p = X.shape_
            Xc = X - self.mean_; f, q = content(subst(Xc.body, {Kn(0): var(i), Kn(1): var(j)}), ok=lambda a: i not in a.fv and j not in a.fv)
            # all components of the covariance matrix (n > p), in decreasing order of variance
            c = cov(X, rowvar=False); b = subst(c.body, {Kn(0): var(i), Kn(1): var(j)})
            self.components_ = A((p, p), eig(i, j, p, b, "eigvec", KV[1], p - ONE - KV[0]))
            self.explained_variance_ = A((p,), eig(i, j, p, b, "eigval", None, p - ONE - KV[0])); return self
        def transform(self, X): return matmul(arr(X) - self.mean_, self.components_.T)
        def fit_transform(self, X): return self.fit(X).transform(X)
        def inverse_transform(self, Z): return matmul(Z, self.components_) + self.mean_
    H["sklearn.decomposition.PCA"] = lambda *a, **k: PCA(*a, **k)
    H["sklearn.exceptions.NotFittedError"] = lambda *a: ValueError(*a)
    D.values["sklearn.exceptions.NotFittedError"] = type("NotFittedError", (ValueError, AttributeError), {})
    H["numpy.finfo"] = lambda *a: types.SimpleNamespace(eps=R_(sym("eps", pos=True)))
    H["numpy.errstate"] = lambda **k: __import__("contextlib").nullcontext()
    D.values["numpy.float64"] = lambda x=0: (x if isinstance(x, (A,)) else float(x))
    H["math.ceil"] = lambda x: S_(scale(floorp(scale(P_(x), -1)), -1)); H["math.floor"] = lambda x: S_(floorp(P_(x))); H["math.sqrt"] = lambda x: R_(pw(P_(x), Fr(1, 2))); H["math.isclose"] = lambda a, b, **k: A((), of(mk("bool", "isclose", P_(a) - P_(b))), "b") if isinstance(a, A) or isinstance(b, A) else math.isclose(a, b, **k); H["math.log"] = lambda x: R_(logp(P_(x)))
    # every plotting call is without effect on the data
    D.handlers["frame.copy"] = lambda f, **k: FrameT(A(f.data.shape_, f.data.body, f.data.dt, f.data.filt), f.index_, f.columns_, f.name)
    H["frame.to_numpy"] = lambda f, *a, **k: f.data
    H["frame.columns"] = lambda f: f.columns_; H["frame.index"] = lambda f: f.index_
    def frame(data=None, index=None, columns=None, **k):
        if isinstance(data, FrameT): return FrameT(data.data, data.index_ if index is None else index, data.columns_ if columns is None else columns)
        return FrameT(arr(data), index, columns)
    H["pandas.DataFrame"] = frame; H["pandas.Series"] = lambda data=None, index=None, name=None, **k: FrameT(arr(data), index, None, name)

for _k in ("argmin", "argmax"): tdom.BINDERS.add(_k); tdom.REBUILD[_k] = tdom._re_argsort

def builtin_table(d):
    def rng(*a):
        if all(not isinstance(x, A) or (isconst(x.body) and not x.shape_) for x in a): return builtins.range(*[builtins.int(x) for x in a])
        st = a[2] if len(a) > 2 else 1
        lo, hi = (ZERO, P_(a[0])) if len(a) == 1 else (P_(a[0]), P_(a[1]))
        if isinstance(st, int) and st == 1: return SymRange(hi - lo, lambda k: S_(add(lo, k)))
        if isinstance(st, int) and st == -1: return SymRange(lo - hi, lambda k: S_(lo - k))
        raise Unsupported("range with a step")
    def ln(x):
        if isinstance(x, FrameT): x = x.data
        if isinstance(x, A): return S_(x.size_() if x.flat is not None else x.dim(0))
        if isinstance(x, SymList): return S_(x.n)
        return builtins.len(x)
    def it(x=0, *a):
        if isinstance(x, A):
            if x.dt in ("i", "b"): return S_(P_(x))
            return S_(d.truncp(P_(x)))
        return builtins.int(x, *a)
    def fl(x=0.0):
        if isinstance(x, A): return A((), P_(x), "f")
        return builtins.float(x)
    def mx(op):
        bf = getattr(builtins, op)
        def f(*a, **k):
            if len(a) == 1 and isinstance(a[0], A): return d.handlers["numpy." + op](a[0])
            if len(a) == 1 and isinstance(a[0], SymList):
                if k: raise Unsupported(op + " with a key over a symbolic list")
                return d.handlers["numpy." + op](arr(a[0]))
            xs = list(a[0]) if len(a) == 1 else list(a)
            if k.get("key") is None and any(isinstance(x, Sym) for x in xs):
                r = P_(xs[0])
                for x in xs[1:]: r = maxp(r, P_(x)) if op == "max" else minp(r, P_(x))
                return S_(r, "f" if any(arr(x).dt == "f" for x in xs) else "i")
            return bf(*a, **k)
        return f
    def sm(x, s=0):
        if isinstance(x, (A, SymList)): return d.handlers["numpy.sum"](arr(x)) + s
        return builtins.sum(x, s)
    def zp(*a, **k):
        xs = [d.iter(x) for x in a]
        if all(d.conc(x) for x in xs): return builtins.zip(*xs)
        ls_ = [aslist(x) if d.conc(x) else x for x in xs]
        return SymRange(ls_[0].n, lambda i: tuple(x.fn(i) for x in ls_))
    def en(x, start=0):
        x = d.iter(x)
        if d.conc(x): return builtins.enumerate(x, start) if not isinstance(start, A) else ((start + i, y) for i, y in enumerate(x))
        return SymRange(x.n, lambda i: (S_(add(i, P_(start))), x.fn(i)))
    def ls(x=()):
        x = d.iter(x) if isinstance(x, Sym) else x
        if d.conc(x): return builtins.list(x)
        return SymList(x.n, x.fn)
    def srt(x, key=None, reverse=False):
        x = d.iter(x) if isinstance(x, Sym) else x
        if d.conc(x):
            x = list(x)
            ks = [key(y) if key else y for y in x]
            if not any(isinstance(k, A) for k in ks): return builtins.sorted(x, key=key, reverse=reverse)
            x = aslist(x); x = SymList(x.n, x.fn)
        if reverse: raise Unsupported("reversed sort")
        v = fresh("s"); kv = P_((key or (lambda y: y))(x.fn(var(v))))
        return SymList(x.n, lambda k: x.fn(argsort(v, x.n, kv, k)))
    def rev(x):
        if isinstance(x, SymList): return SymRange(x.n, lambda k: x.fn(x.n - ONE - k))
        if isinstance(x, SymRange): return x.__reversed__()
        if isinstance(x, A): x = d.iter(x); return x.__reversed__() if isinstance(x, SymRange) else builtins.reversed(x)
        return builtins.reversed(x)
    def aa(op):
        def f(x):
            x = d.iter(x) if isinstance(x, Sym) else x
            if d.conc(x):
                x = list(x); r = None
                for y in x:
                    if bool(y) == (op == "any"): return op == "any"
                return op != "any"
            return d.handlers["numpy." + op](arr(SymList(x.n, x.fn)))
        return f
    class M(type):
        def __instancecheck__(c, x): return core.sym_isinstance(x, c.real)
        def __eq__(c, o): return o is c.real or builtins.type.__eq__(c, o)
        def __hash__(c): return hash(c.real)
        def __or__(c, o): return c.real | (o.real if isinstance(o, M) else o)
        def __ror__(c, o): return (o.real if isinstance(o, M) else o) | c.real
        def __getattr__(c, a): return getattr(c.real, a)
    def ty(name, conv, r): return M(name, (), {"real": r, "__new__": lambda cls, *a, **k: conv(*a, **k)})
    def rd(x, nd=None):
        if isinstance(x, A): return d.handlers["numpy.round"](x, nd or 0)
        return builtins.round(x, nd)
    def bl(x=False):
        if isinstance(x, A): return x if x.dt == "b" else x != 0
        return builtins.bool(x)
    def nxt(x, *a): return builtins.next(x, *a)
    def tp(x=(), ):
        x = d.iter(x) if isinstance(x, Sym) else x
        return builtins.tuple(x)
    d.bad = lambda m: (_ for _ in ()).throw(Unsupported(m))
    return dict(range=rng, len=ln, max=mx("max"), min=mx("min"), sum=sm, zip=zp, enumerate=en, sorted=srt, reversed=rev, any=aa("any"), all=aa("all"), isinstance=core.sym_isinstance,
                int=ty("int", it, builtins.int), float=ty("float", fl, builtins.float), bool=ty("bool", bl, builtins.bool), list=ty("list", ls, builtins.list), tuple=ty("tuple", tp, builtins.tuple), round=rd)

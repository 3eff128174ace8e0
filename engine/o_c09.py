"""C09: power transforms"""
import z3, core
from sdom import *
from sdom import K
from core import World
from sdomain import LoopSpec, Z

TR = "robpy.preprocessing.transfo"
def cases(d, l, at):
    """split the parameter at the special values and by sign"""
    for v in at:
        if d.branch(l.e == v): return
        d.branch(l.e > v)

def run(E):
    E.trust("numpy elementwise arithmetic as real arithmetic; boolean selection and masked assignment", "exp/log are mutually inverse and increasing; a**b = exp(b*log a) for a > 0",
            "numpy.min/max/sort/median and median_abs_deviation by their order-statistic contracts")
    E.assume("real arithmetic for floating point: 'restores' and 'strictly increasing' are up to rounding (the run-time contracts measure the rounding)")
    SP = {"boxcox": (0,), "yeojohnson": (0, 2)}
    for kind in ("boxcox", "yeojohnson"):
        def setup(sorted_=False):
            d = E.sdomain(); n = d.int("n"); i, j, w = z3.Ints("i j w")
            d.base += [n.e >= 1, i >= 0, j >= 0, i < n.e, j < n.e]; d.index_terms += [i, j]
            return d, n, i, j
        # plain transform
        d, n, i, j = setup()
        with d:
            m = World(d).module(TR)
            def f():
                l = d.real("lam"); X = d.array("x", n); xi, xj = X.at(i).e, X.at(j).e
                t = m.RobustPowerTransformer(method=kind)
                cases(d, l, SP[kind])
                if kind == "yeojohnson": d.branch(xi >= 0); d.branch(xj >= 0)
                T_ = getattr(t, "_transf_" + kind); Inv = getattr(t, "_inv_transf_" + kind)
                r = refuse(d, kind, X, lambda: T_(X, l))[0]; a, b = r.at(i), r.at(j)
                if kind == "boxcox": d.prove("accepted only when every value is strictly positive", xi > 0)
                d.prove("strictly increasing", z3.Implies(xi < xj, a.e < b.e))
                d.prove("defined on the whole domain", a.ok)
                d.prove("one value per observation", r.shape_[0] == n.e)
                back = Inv(r, l).at(i)
                d.prove("inverse of the transform is the identity", back.e == xi); d.prove("inverse defined on the range", back.ok)
                if kind == "yeojohnson": d.prove("sign kept", (a.e >= 0) == (xi >= 0))
            E.unit(d, f"_transf_{kind} / _inv_transf_{kind}", f)
        # inverse first: inside the range, transform(inverse(y)) = y
        d, n, i, j = setup()
        with d:
            m = World(d).module(TR)
            def f():
                l = d.real("lam"); Y = d.array("y", n); y = Y.at(i).e
                t = m.RobustPowerTransformer(method=kind); t.method_ = kind; t.lambda_rew = l
                cases(d, l, SP[kind])
                lo, hi = t._calculate_bounds()
                L = d.num(lo).e if lo is not None else None; U = d.num(hi).e if hi is not None else None
                rng = {"boxcox": (z3.If(l.e > 0, -1 / l.e, -INF), z3.If(l.e < 0, -1 / l.e, INF)), "yeojohnson": (z3.If(l.e > 2, 1 / (2 - l.e), -INF), z3.If(l.e < 0, -1 / l.e, INF))}[kind]
                le, he = z3.simplify(rng[0]), z3.simplify(rng[1])
                d.prove("lower end of the range reported exactly when it is finite", (L == rng[0]) if L is not None else (l.e <= 0 if kind == "boxcox" else l.e <= 2))
                d.prove("upper end of the range reported exactly when it is finite", (U == rng[1]) if U is not None else l.e >= 0)
                b = t._handle_bounds(Y).at(i)
                ins = z3.And(*([y > L] if L is not None else []), *([y < U] if U is not None else []))
                d.prove("values inside the range are left alone", z3.Implies(ins, b.e == y)); d.prove("never missing", b.ok)
                at = z3.And(*([y != L] if L is not None else []), *([y != U] if U is not None else []))
                if L is not None: d.prove("values below the range are clipped to within it", z3.Implies(at, b.e > L))
                if U is not None: d.prove("values above the range are clipped to within it", z3.Implies(at, b.e < U))
                d.prove("clipping keeps the side of the range", z3.And(*([z3.Implies(y < L, b.e < 0)] if L is not None else []), *([z3.Implies(y > U, b.e > 0)] if U is not None else []), T))
            E.unit(d, f"_calculate_bounds / _handle_bounds ({kind})", f)
        # the changepoint lies in the data
        d, n, i, j = setup()
        with d:
            m = World(d).module(TR)
            def f():
                l = d.real("lam"); X = d.array("x", n); order(d, X, n)
                d.assume(l.e != 1); cases(d, l, SP[kind] + (1,))
                c = d.num(refuse(d, kind, X, lambda: getattr(m.RobustPowerTransformer(method=kind), f"_get_rectified_{kind}_changepoint")(X, l))).e
                x0, xn = X.at(0).e, X.at(n.e - 1).e
                d.assume(x0 <= xn)
                d.prove("the changepoint is inside the data range", z3.And(x0 <= c, c <= xn))
            E.unit(d, f"_get_rectified_{kind}_changepoint", f)
        # rectified transform, for any changepoint in the data range
        SPLIT = [("lambda<0", lambda l: l < 0), ("lambda=0", lambda l: l == 0), ("0<lambda<1", lambda l: z3.And(l > 0, l < 1)), ("lambda=1", lambda l: l == 1), ("1<lambda<2", lambda l: z3.And(l > 1, l < 2)), ("lambda=2", lambda l: l == 2), ("lambda>2", lambda l: l > 2)]
        for part, rel in SPLIT:
          d, n, i, j = setup()
          with d:
            m = World(d).module(TR)
            def f():
                l = d.real("lam"); X = d.array("x", n); xi, xj = X.at(i).e, X.at(j).e; c = d.real("c")
                t = m.RobustPowerTransformer(method=kind)
                cp = lambda x, lam, *a, **k: (d.prove("the changepoint is computed for these data and this parameter", z3.And(x.at(i).e == xi, d.num(lam).e == l.e)), c)[1]
                setattr(t, f"_get_rectified_{kind}_changepoint", cp)
                # contract of the changepoint: inside the data range (proved above), hence in the domain
                if kind == "boxcox": d.assume(c.e > 0)
                d.assume(rel(l.e))
                if kind == "yeojohnson":
                    d.branch(xi >= 0); d.branch(xj >= 0); d.branch(c.e >= 0)
                d.branch(xi > c.e); d.branch(xj > c.e)
                r = refuse(d, kind, X, lambda: getattr(t, f"_transf_{kind}_rectified")(X, l))[0]
                if kind == "boxcox": d.prove("accepted only when every value is strictly positive", xi > 0)
                p = refuse(d, kind, X, lambda: getattr(t, f"_transf_{kind}")(X, l))[0]
                a, b, pi = r.at(i), r.at(j), p.at(i)
                inside = z3.Or(l.e == 1, z3.And(l.e > 1, xi >= c.e), z3.And(l.e < 1, xi <= c.e))
                d.prove("coincides with the plain transform up to the changepoint", z3.Implies(inside, a.e == pi.e))
                d.prove("strictly increasing", z3.Implies(xi < xj, a.e < b.e))
                if d.entails(l.e == 1, 2000) != "proved":
                    Tc = d.num(getattr(t, f"_transf_{kind}")(c, l)[0]).e
                    d.prove("continuous at the changepoint: beyond it a straight line through the transform's value there", z3.Implies(z3.And(z3.Not(inside), z3.substitute(z3.Not(inside), (xi, xj))), (a.e - Tc) * (xj - c.e) == (b.e - Tc) * (xi - c.e)))
                    d.prove("the changepoint itself gets the transform's value", z3.Implies(xi == c.e, a.e == Tc))
                d.prove("defined everywhere", a.ok)
            E.unit(d, f"_transf_{kind}_rectified, {part}", f)
        # fit, transform, inverse_transform
    for meth in ("boxcox", "yeojohnson", "auto"):
        for std in (True, False):
            d = E.sdomain(); n, n2 = d.int("n"), d.int("n2"); i = z3.Int("i"); d.base += [n.e >= 1, n2.e >= 1, i >= 0, i < n2.e]; d.index_terms += [i]
            with d:
                m = World(d).module(TR)
                for kk in ("boxcox", "yeojohnson"):
                    d.loops[(f"{TR}:RobustPowerTransformer._fit_{kk}", 0)] = LoopSpec(
                        lambda st, k, kk=kk: [("the spread of the transformed data is positive once estimated", d.num(st[f"sd_rew_{kk}"]).e > 0)] if st.get(f"sd_rew_{kk}", UNDEF) is not UNDEF and st.get("lambda_rew", UNDEF) is not UNDEF else [],
                        havoc={"lambda_rew": lambda d, st: Num(d.fresh("lam")), "lambda_raw": lambda d, st: Num(d.fresh("lamraw")), f"mu_rew_{kk}": lambda d, st: Num(d.fresh("mu")), f"sd_rew_{kk}": lambda d, st: Num(d.fresh("sd")), "converged": lambda d, st: Num(d.fresh("conv", B)), "lambdarange": lambda d, st: d.fresh_like(st["lambdarange"], "range")})
                def f():
                    X = d.array("x", n); Y = d.array("y", n2); y = Y.at(i).e
                    t = m.RobustPowerTransformer(method=meth, standardize=std)
                    def rew(*a, **k):
                        sd = d.fresh("sd"); d.assume(sd > 0); return Num(d.fresh("lam")), Num(d.fresh("mu")), Num(sd)
                    t._calculate_lambda_0 = lambda *a, **k: Num(d.fresh("lam0")); t._reweighted_max_likelihood_robust = rew; t._robnormality = lambda *a, **k: Num(d.fresh("crit"))
                    mn = d.handlers["numpy.min"](X).e
                    try: t.fit(X)
                    except ValueError:
                        d.prove("fit refuses only data that are not strictly positive, and only for Box-Cox", z3.And(z3.BoolVal(meth == "boxcox"), mn <= 0)); return
                    d.prove("fit accepts data that are not strictly positive only without Box-Cox", z3.Implies(mn <= 0, z3.BoolVal(t.method_ == "yeojohnson")))
                    d.prove("the method used is the one asked for", z3.BoolVal(t.method_ in (("boxcox", "yeojohnson") if meth == "auto" else (meth,))))
                    kind = t.method_; l = d.num(t.lambda_rew)
                    if std:
                        # after the loop the invariant sd > 0 holds because at least one round ran
                        d.assume(d.num(t.scale_post).e > 0)
                        med = d.handlers["numpy.median"](X).e; mad = d.handlers["scipy.stats.median_abs_deviation"](X, scale="normal").e
                        if kind == "yeojohnson": d.assume(d.num(t.scale_pre).e > 0)
                        else: d.prove("Box-Cox data are divided by something positive", d.num(t.scale_pre).e > 0); d.assume(d.num(t.scale_pre).e > 0)
                    cases(d, l, SP[kind])
                    my = d.handlers["numpy.min"](Y).e
                    try: tr = t.transform(Y)
                    except ValueError: d.prove("transform refuses only data that are not strictly positive, and only for Box-Cox", z3.And(z3.BoolVal(kind == "boxcox"), my <= 0)); return
                    d.prove("transform accepts data that are not strictly positive only without Box-Cox", z3.Implies(my <= 0, z3.BoolVal(kind == "yeojohnson")))
                    S = lambda a, b: (y - d.num(a).e) / d.num(b).e
                    pre = y if not std else (y / d.num(t.scale_pre).e if kind == "boxcox" else S(t.location_pre, t.scale_pre))
                    if kind == "yeojohnson": d.branch(pre >= 0)
                    else: d.assume(pre > 0)
                    pt = d.num(getattr(t, "_transf_" + kind)(Num(pre), l)[0]).e
                    v = tr.at(i); d.prove("transform is the plain transform between the two standardizations", v.e == ((pt - d.num(t.location_post).e) / d.num(t.scale_post).e if std else pt))
                    d.prove("transform defined", v.ok)
                    # contract of _handle_bounds (proved above): values inside the range are left alone, others moved strictly inside
                    inr = lambda u: z3.And(z3.Implies(l.e > 0, u > -1 / l.e) if kind == "boxcox" else z3.Implies(l.e > 2, u > 1 / (2 - l.e)), z3.Implies(l.e < 0, u < -1 / l.e))
                    def hb(x):
                        d.prove("transformed values are inside the range of the transform", inr(x.at(i).e)); return x
                    t._handle_bounds = hb
                    back = t.inverse_transform(tr)
                    d.prove("one value per observation", back.shape_[0] == n2.e)
                    b = back.at(i); d.prove("the inverse transform restores new data", b.e == y); d.prove("the inverse transform is defined", b.ok)
                    def hb2(x):
                        r = d.fresh_like(x, "clipped"); d.assume(inr(r.at(i).e))
                        u = w.at(i).e * d.num(t.scale_post).e + d.num(t.location_post).e if std else w.at(i).e
                        d.prove("the values clipped are the destandardized ones", x.at(i).e == u); return r
                    t._handle_bounds = hb2; w = d.array("w", n2)
                    d.prove("inverse transform of arbitrary values is defined", t.inverse_transform(w).at(i).ok)
                E.unit(d, f"fit / transform / inverse_transform ({meth}, standardize={std})", f)
    return E

def refuse(d, kind, X, f):
    """Box-Cox: ValueError exactly when the smallest value is not positive"""
    try: return f()
    except ValueError:
        if kind != "boxcox": raise
        d.prove("refused only when some value is not strictly positive", d.handlers["numpy.min"](X).e <= 0)
        raise core.PathEnd()

def qall(d, X, rel):
    """assume rel for every element: recorded as facts at every index term"""
    body = rel(X.at(z3.Int("q!")).e); q = z3.Int("q!"); n = X.shape_[0]
    nm = X.body.decl().name(); old = d.fact_gens.get(nm)
    d.fact_gens[nm] = lambda app, ts: (old(app, ts) if old else []) + [z3.Implies(z3.And(app.children()[0] >= 0, app.children()[0] < n), subst(body, [(q, app.children()[0])]))]
    return T
def order(d, X, n):
    """assume X sorted"""
    nm = X.body.decl().name()
    d.pair_facts[nm] = lambda x, y: [z3.Implies(z3.And(0 <= x.children()[0], x.children()[0] <= y.children()[0], y.children()[0] < n.e), x <= y), z3.Implies(z3.And(0 <= y.children()[0], y.children()[0] <= x.children()[0], x.children()[0] < n.e), y <= x)]

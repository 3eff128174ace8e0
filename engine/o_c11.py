"""C11: subset sizes"""
import z3, core
from sdom import *
from sdom import K
from core import World, PathEnd

class Got(Exception): pass

def spec(kind, a, n, m):
    """(admissible, size) of the documented rule; m: smallest size with the breakdown property"""
    mx = lambda x: z3.If(x >= m, x, m)
    if kind == "none": return T, m
    if kind == "int": return z3.Or(z3.And(2 * a >= n, a <= n), a == 1), z3.If(z3.And(2 * a >= n, a <= n), mx(a), mx(n))
    return z3.And(a >= RV("1/2"), a <= 1), mx(trunc(a * z3.ToReal(n)))

def run(E):
    E.trust("np.max of two numbers: the larger one", "int(): truncation")
    E.assume("integers are mathematical; alpha*n is computed exactly (a product within one rounding error of an integer may be truncated to the one below)", "n > p (for the multivariate estimators), n >= 2")
    def alpha(d, kind): return None if kind == "none" else d.int("alpha") if kind == "int" else d.real("alpha")
    def judge(d, kind, n, m, call, what=""):
        a = alpha(d, kind); ad, h = spec(kind, a.e if a is not None else None, n, m)
        try: got = call(a)
        except ValueError:
            d.prove(f"alpha {kind}: rejected with ValueError only outside the admissible range", Not(ad)); return
        d.prove(f"alpha {kind}: accepted only inside the admissible range", ad)
        g = d.num(got); ge = g.e
        d.prove(f"alpha {kind}: the subset has the documented size", ge == h if ge.sort() == I else ge == z3.ToReal(h))
        d.prove(f"alpha {kind}: not larger than n, not smaller than the breakdown minimum", z3.And(ge <= n, ge >= m))
    def tryget(f):
        try: f()
        except Got as g: return g.args[0]
        raise core.Unsupported("the subset size was not observed")
    kinds = ("none", "int", "float")
    # --- one-dimensional MCD
    d = E.sdomain()
    with d:
        m = World(d).module("robpy.univariate.mcd"); n = d.int("n"); d.base += [n.e >= 2]
        for kind in kinds:
            def f():
                def call(a):
                    u = m.UnivariateMCD(alpha=a); u._set_h_size(d.array("x", n)); return u.h_size
                judge(d, kind, n.e, n.e / 2 + 1, call)
            E.unit(d, "UnivariateMCD._set_h_size", f)
    # --- FAST-MCD and DetMCD
    d = E.sdomain()
    with d:
        W = World(d); m = W.module("robpy.covariance.mcd"); n, p = d.int("n"), d.int("p"); d.base += [p.e >= 1, n.e >= p.e + 1, n.e >= 2]
        mn = (n.e + p.e + 1) / 2
        for cls in ("FastMCD", "DetMCD"):
            for kind in kinds:
                def f():
                    def call(a):
                        u = getattr(m, cls)(alpha=a); u._n_obs = n; return u._get_h(d.array("x", n, p))
                    judge(d, kind, n.e, mn, call)
                E.unit(d, f"{cls}._get_h", f)
        def part():
            N = z3.Int("N"); a = z3.Int("alpha"); d.assume(z3.And(N > n.e, a <= N, 2 * a >= N, a > 1))
            u = m.FastMCD(alpha=Num(a)); u._n_obs = Num(N); h = d.num(u._get_h(d.array("x", n, p))).e
            pr = trunc(z3.ToReal(a) / z3.ToReal(N) * z3.ToReal(n.e))
            d.prove("integer alpha on a partition: the same proportion of it, at least the breakdown minimum", h == z3.If(pr >= mn, pr, mn))
            d.prove("integer alpha on a partition: not larger than the partition", h <= n.e)
        E.unit(d, "FastMCD._get_h (partition)", part)
    # --- LTS
    d = E.sdomain()
    with d:
        m = World(d).module("robpy.regression.lts"); n, p = d.int("n"), d.int("p"); d.base += [p.e >= 1, n.e >= p.e + 1]
        for kind in ("int", "float"):
            def f():
                def call(a):
                    u = m.FastLTSRegression(alpha=a)
                    def init(X, y, h, **k): raise Got(h)
                    u._apply_initial_C_steps = init
                    return tryget(lambda: u.fit(d.array("x", n, p), d.array("y", n)))
                if kind == "float": judge(d, kind, n.e, (n.e + p.e + 1) / 2, call)
                else:   # a proportion is required: the only admissible integer is 1
                    a = d.int("alpha")
                    try: h = d.num(call(a)).e
                    except ValueError: d.prove("alpha int: only 1 is accepted", a.e != 1); return
                    d.prove("alpha int: only 1 is accepted", a.e == 1); d.prove("alpha int: 1 means all observations", h == n.e)
            E.unit(d, "FastLTSRegression.fit", f)
    # --- ROBPCA: observed at the covariance of the h-subset
    d = E.sdomain()
    with d:
        m = World(d).module("robpy.pca.robpca"); n, q, k = d.int("n"), d.int("q"), d.int("k"); d.base += [q.e >= 1, n.e >= 2, k.e >= 1, n.e >= k.e + 1, n.e >= 11]
        class PCA:
            def __init__(s): s.components_ = d.array("V", q, q)
            def fit_transform(s, X): return d.array("scores", n, q)
        m.PCA = PCA; m.stahel_donoho = lambda X, **kw: d.array("sdo", n)
        d.handlers["numpy.cov"] = lambda X, **kw: (_ for _ in ()).throw(Got(Num(d.arr(X).shape_[0])))
        for comp in (False, True):
            for kind in ("int", "float"):
                def f():
                    def call(a): return tryget(lambda: m.ROBPCA(alpha=a, n_components=k if comp else None).fit(d.array("x", n, q)))
                    mn = (n.e + (k.e if comp else 10) + 1) / 2
                    if kind == "float": judge(d, kind, n.e, mn, call); return
                    a = d.int("alpha")
                    try: h = d.num(call(a)).e
                    except ValueError: d.prove("alpha int: only 1 is accepted", a.e != 1); return
                    d.prove("alpha int: only 1 is accepted", a.e == 1); d.prove("alpha int: 1 means all observations", h == n.e)
                E.unit(d, f"ROBPCA.fit ({'given' if comp else 'default'} number of components)", f)
    # --- cellwise MCD: the proportion, then the number of cells
    d = E.sdomain()
    with d:
        W = World(d); m = W.module("robpy.covariance.cellmcd"); m2 = W.module("robpy.covariance.initial_ddcw"); n, p = d.int("n"), d.int("p"); d.base += [p.e >= 1, n.e >= 2]
        low = z3.ToReal(n.e / 2 + 1) / z3.ToReal(n.e)
        def stop(name, obj): d.handlers[name] = lambda *a, **k: (_ for _ in ()).throw(Got(obj[0].alpha_))
        for cls, mod, at in (("CellMCD", m, "scipy.stats.median_abs_deviation"), ("InitialDDCW", m2, "pandas.DataFrame")):
            def f():
                a = d.real("alpha"); obj = []; stop(at, obj); ad = z3.And(a.e >= RV("1/2"), a.e <= 1)
                u = getattr(mod, cls)(alpha=a); obj.append(u)
                try: got = d.num(tryget(lambda: u.calculate_covariance(d.array("x", n, p)))).e
                except ValueError: d.prove("rejected with ValueError only outside [0.5, 1]", Not(ad)); return
                d.prove("accepted only inside [0.5, 1]", ad)
                t = trunc(z3.ToReal(n.e) / 2); d.prove("lemma: int(n / 2) = [n/2]", t == n.e / 2); got = subst(got, [(t, n.e / 2)])
                d.prove("the proportion is alpha raised to ([n/2]+1)/n", got == z3.If(a.e >= low, a.e, low))
                d.prove("at most all observations", got <= 1)
            E.unit(d, f"{cls}.calculate_covariance (proportion)", f)

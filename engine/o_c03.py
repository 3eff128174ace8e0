"""C03: univariate estimates are finite, inside the data range, with scale >= 0"""
import z3, core
from sdom import *
from sdom import K
from core import World, PathEnd
from sdomain import LoopSpec, Z
from umcd import *

def post(d, X, n, i, e, what=""):
    """the postcondition of every estimator"""
    l, s = d.num(e.location_), d.num(e.scale_); mn, mx = d.handlers["numpy.min"](X).e, d.handlers["numpy.max"](X).e
    d.prove(what + "location finite", l.ok); d.prove(what + "scale finite", s.ok)
    d.prove(what + "location not below the smallest observation", l.e >= mn); d.prove(what + "location not above the largest observation", l.e <= mx)
    d.prove(what + "scale nonnegative", s.e >= 0)

def run(E):
    E.trust("np.sum/np.mean/np.var as sums; np.median and median_abs_deviation: between two of the values (each bounded by one of them on either side)", "chi2/gamma/norm distribution functions: positive and below 1 where stated; chi2.cdf(chi2.ppf(a, 1), 3) <= a; gamma.cdf(chi2.ppf(a, 1)/2, 3/2) <= a; chi2.ppf(0.975, 1) > 1",
            "a finite family has a member not above its mean", "the normal consistency constant of Tau (an expectation of a positive function) is positive")
    E.assume("real arithmetic for floating point; no overflow", "n >= 2, tuning constants as documented (Huber b >= 1, bisquare c >= 1, Tau c1 > 1, c2 > 0, delta > 0, min_abs_scale in (0, 1e-5])",
             "the Qn scale is decided by the run-time contracts only (C04): its search loop has no invariant here; its location (the median by default) is covered")
    def new(name="x"):
        d = E.sdomain(); d.naming = True; d.naming_min = 6; n = d.int("n"); i = z3.Int("i"); d.base += [n.e >= 2, i >= 0, i < n.e]; d.index_terms += [i]; return d, n, i
    # ---- missing values
    for ign in (False, True):
        for can in (False, True):
            d, n, i = new()
            with d:
                m = World(d).module("robpy.univariate.base")
                def f():
                    class Est(m.RobustScale):
                        def _calculate(s, X): s.got = X; s.location_ = s.scale_ = Num(RV(0))
                    X = d.array("x", n, ok=True); e = Est(can_handle_nan=can); x = X.at(i)
                    some = d.num(d.np_any(d.handlers["numpy.isnan"](X))).e
                    try: e.fit(X, ignore_nan=ign)
                    except ValueError:
                        d.prove("rejected only when a value is missing and missing values are neither handled nor ignored", z3.And(some, z3.BoolVal(not ign and not can))); return
                    g = e.got
                    keep = subst(g.filt[1], [(K[0], i)]) if g.filt is not None else T
                    d.prove("every value used is one of the sample's", g.at(i).e == x.e)
                    if ign:
                        d.prove("ignoring missing values: exactly the values present are used", keep == x.ok)
                    elif not can:
                        d.prove("otherwise accepted only without missing values, and all are used", z3.And(x.ok, keep))
                    else: d.prove("an estimator that handles missing values gets the whole sample", keep)
                E.unit(d, f"RobustScale.fit(ignore_nan={ign}, can_handle_nan={can})", f)
    # ---- one-step M
    for nm, mk, rho in (("Huber/Huber", lambda R_, b, b2: (R_.Huber(b=b), R_.Huber(b=b2)), 0), ("bisquare/Huber", lambda R_, b, b2: (R_.TukeyBisquare(c=b), R_.Huber(b=b2)), 1)):
        d, n, i = new()
        with d:
            W = World(d); m = W.module("robpy.univariate.onestep_m"); R_ = W.module("robpy.utils.rho")
            b, b2, dl, ms = (z3.Real(s) for s in ("b", "b2", "delta", "minscale")); d.base += [b >= 1, b2 >= 1, dl > 0, ms > 0, ms <= RV("1/100000")]
            def f():
                X = d.array("x", n); l, s = mk(R_, Num(b), Num(b2)); e = m.OneStepM(l, s, Num(dl), Num(ms))
                med = d.handlers["numpy.median"](X).e; mad = d.handlers["scipy.stats.median_abs_deviation"](X); d.index_terms += [w for w in []]
                c = d.witness(mad.e, "lo"); d.index_terms = [i, c]
                e._calculate(X); post(d, X, n, i, e)
            E.unit(d, f"OneStepM._calculate ({nm})", f)
    # ---- the default classes are instances of the above
    d, n, i = new()
    with d:
        W = World(d); m = W.module("robpy.univariate.onestep_m")
        def f():
            for e, b, b2, kind in ((m.HuberOneStepM(), "1.5", "1.5", "Huber"), (m.CellwiseOneStepM(), "3", "2.5", "TukeyBisquare")):
                lr = e.loc_rho; v = getattr(lr, "b", getattr(lr, "c", None))
                d.prove(f"{type(e).__name__}: constants meet the precondition", z3.And(d.num(v).e >= 1, d.num(e.scale_rho.b).e >= 1, d.num(e.delta).e > 0, d.num(e.min_abs_scale).e > 0, d.num(e.min_abs_scale).e <= RV("1/100000")))
        E.unit(d, "HuberOneStepM, CellwiseOneStepM", f, canary=False)
    # ---- tau
    for cc in (False, True):
        d, n, i = new()
        with d:
            m = World(d).module("robpy.univariate.tau"); c1, c2 = z3.Real("c1"), z3.Real("c2"); d.base += [c1 > 1, c2 > 0]
            def f():
                X = d.array("x", n); e = m.Tau(Num(c1), Num(c2), consistency_correction=cc)
                mad = d.handlers["scipy.stats.median_abs_deviation"](X); d.index_terms = [i, d.witness(mad.e, "lo")]
                H = d.handlers
                if cc:
                    q = Num(c2) * H["scipy.stats.norm.ppf"](3 / 4); P_, f_ = H["scipy.stats.norm.cdf"](q).e, H["scipy.stats.norm.pdf"](q).e
                    d.assume(2 * ((1 - q.e * q.e) * P_ - q.e * f_ + q.e * q.e) - 1 > 0)
                e._calculate(X); post(d, X, n, i, e)
            E.unit(d, f"Tau._calculate(consistency_correction={cc})", f)
    # ---- univariate MCD
    for cc in (False, True):
        d, n, i = new()
        with d:
            m = World(d).module(MCD); h = d.int("h"); w = z3.Int("w"); d.base += [h.e >= 1, h.e <= n.e, w >= 0, w <= n.e - h.e]; d.index_terms += [w]
            H = d.handlers; mn = lambda X: H["numpy.min"](X).e; mx = lambda X: H["numpy.max"](X).e
            def facts(d, a):
                """distribution functions at a proportion a in (0, 1]"""
                q = H["scipy.stats.chi2.ppf"](Num(a), df=1); F3 = H["scipy.stats.chi2.cdf"](q, df=3).e; G = H["scipy.stats.gamma.cdf"](Num(q.e / 2), a=1.5).e
                d.assume(z3.And(F3 > 0, F3 <= a, G > 0, G <= a))
            def raw():
                X = d.array("x", n); u = m.UnivariateMCD(consistency_correction=cc); u.h_size = h; scan_loop(d, X, h.e, w); facts(d, real(h.e) / real(n.e))
                rv, rl = u._get_raw_estimates(X); rv, rl = d.num(rv), d.num(rl); d.index_terms = d.index_terms
                js = d.pcterms("index_best"); d.prove("the window was chosen in one scan", len(js) == 1); j = js[0]
                d.prove("the window is inside the sample", z3.And(j >= 0, j <= n.e - h.e))
                d.prove("raw variance nonnegative", rv.e >= 0); d.prove("raw variance finite", rv.ok); d.prove("raw location finite", rl.ok)
                # the minimum and maximum of the sample bound the ordered sample
                lo, hi = mn(X), mx(X)
                d.prove("raw location not below the smallest observation", rl.e >= lo); d.prove("raw location not above the largest observation", rl.e <= hi)
                win = window(d, X, h.e, j); c = d.fresh("c", I); d.assume(z3.And(c >= 0, c < h.e)); t = win.at(c).e
                mean = H["numpy.mean"](win).e; var = H["numpy.var"](win).e
                d.assume((t - mean) * (t - mean) <= var)            # a member not above the mean of the squared deviations
                fac = factor(d, h.e, n.e) if cc else RV(1)
                d.prove("lemma: the factor is at least one", fac >= 1); d.assume(fac >= 1)
                d.prove("lemma: raw location and variance are those of the window", z3.And(rl.e == mean, rv.e == fac * var)); d.assume(z3.And(rl.e == mean, rv.e == fac * var, var >= 0))
                v_, f_, t_, m_ = z3.Reals("v_ f_ t_ m_")
                d.prove("lemma: a squared deviation below the variance is below any larger multiple of it", z3.Implies(z3.And(v_ >= 0, f_ >= 1, (t_ - m_) * (t_ - m_) <= v_), (t_ - m_) * (t_ - m_) <= f_ * v_)); d.assume(z3.Implies(z3.And(var >= 0, fac >= 1, (t - mean) * (t - mean) <= var), (t - mean) * (t - mean) <= fac * var))
                d.prove("some observation is within the raw scale of the raw location", (t - rl.e) * (t - rl.e) <= rv.e)
            E.unit(d, f"UnivariateMCD._get_raw_estimates(consistency_correction={cc})", raw)
            def rew():
                X = d.array("x", n); u = m.UnivariateMCD(consistency_correction=cc); rl, rv = d.real("rl").e, d.real("rv").e; c = z3.Int("c")
                d.index_terms = [i, c]; xc = X.at(c).e
                d.assume(z3.And(rv > 0, c >= 0, c < n.e, (xc - rl) * (xc - rl) <= rv))            # contract of _get_raw_estimates
                q = H["scipy.stats.chi2.ppf"](0.975, df=1).e; d.assume(q > 1)
                u.raw_location_, u.raw_variance_ = Num(rl), Num(rv)
                d.prove("lemma: the observation within the raw scale is inside the cutoff", (xc - rl) * (xc - rl) / rv < q); d.assume((xc - rl) * (xc - rl) / rv < q)
                xi = real(X.body); cond = subst((xi - rl) * (xi - rl) / rv < q, [(K[0], Z)]); cnt = d.sum_term(RV(1), n.e, cond)
                d.prove("the cutoff keeps at least one observation", cnt > 0); d.assume(z3.And(cnt > 0, cnt <= real(n.e)))
                dl = cnt / real(n.e); facts(d, dl); d.assume(z3.And(dl > 0, dl <= 1))
                v, l = u._reweighting(X); v, l = d.num(v), d.num(l)
                d.prove("location finite", l.ok); d.prove("variance finite", v.ok)
                d.prove("location not below the smallest observation", l.e >= mn(X)); d.prove("location not above the largest observation", l.e <= mx(X))
                x = subst(xi, [(K[0], Z)]); mean = d.sum_term(x, n.e, cond) / cnt; var = d.sum_term((x - mean) * (x - mean), n.e, cond) / cnt
                G = H["scipy.stats.gamma.cdf"](Num(H["scipy.stats.chi2.ppf"](Num(dl), df=1).e / 2), a=1.5).e
                g = dl * (1 / G) if cc else RV(1)
                d.prove("lemma: the factor is at least one", g >= 1)
                d.prove("variance is that of the observations kept times the factor", v.e == var * g); d.prove("location is their mean", l.e == mean)
                d.assume(var >= 0)                                                                  # a mean of squares (np.var)
                a_, b_ = z3.Reals("a_ b_"); d.prove("lemma: products of nonnegative numbers", z3.Implies(z3.And(a_ >= 0, b_ >= 1), z3.And(a_ * b_ >= 0, a_ * b_ >= a_)))
            E.unit(d, f"UnivariateMCD._reweighting(consistency_correction={cc})", rew)
            def calc():
                X = d.array("x", n); u = m.UnivariateMCD(consistency_correction=cc); rv, rl, v, l = (d.real(s) for s in ("rv", "rl", "v", "l")); lo, hi = mn(X), mx(X)
                d.assume(z3.And(rv.e >= 0, v.e >= 0, rl.e >= lo, rl.e <= hi, l.e >= lo, l.e <= hi))   # contracts of the callees
                u._set_h_size = lambda Y: setattr(u, "h_size", h)
                u._get_raw_estimates = lambda Y: (rv, rl)
                def rw(Y): d.prove("reweighting is only called with a positive raw variance", d.num(u.raw_variance_).e > 0); return v, l
                u._reweighting = rw
                u._calculate(X); post(d, X, n, i, u)
            E.unit(d, f"UnivariateMCD._calculate(consistency_correction={cc})", calc)
    # ---- one-step wrapping
    d, n, i = new()
    with d:
        m = World(d).module("robpy.univariate.onestep_m")
        def f():
            X = d.array("x", n); H = d.handlers; c = z3.Int("c"); d.index_terms = [i, c]; l0, s0 = d.real("l0"), d.real("s0")
            class MCDc:
                def fit(s, Y): s.location, s.scale = l0, s0; d.prove("the initial estimates are those of the same data", Y.at(i).e == X.at(i).e); return s
            m.UnivariateMCD = lambda *a, **k: MCDc()
            xc = X.at(c).e; dv = xc - l0.e
            d.assume(z3.And(s0.e >= 0, l0.e >= H["numpy.min"](X).e, l0.e <= H["numpy.max"](X).e, c >= 0, c < n.e, dv <= s0.e, -dv <= s0.e))      # contract of UnivariateMCD: some observation within one scale
            e = m.OneStepWrapping(); e._calculate(X); post(d, X, n, i, e)
        E.unit(d, "OneStepWrapping._calculate", f)
    # ---- Qn: location
    d, n, i = new()
    with d:
        m = World(d).module("robpy.univariate.qn")
        def f():
            q = m.Qn(); X = d.array("x", n); l = d.num(q.location_func(X))
            d.prove("the default location is the median", l.e == d.handlers["numpy.median"](X).e)
            d.prove("location not below the smallest observation", l.e >= d.handlers["numpy.min"](X).e); d.prove("location not above the largest observation", l.e <= d.handlers["numpy.max"](X).e)
        E.unit(d, "Qn (location)", f)

"""C05: univariate MCD"""
import z3, core
from sdom import *
from sdom import K
from core import World, PathEnd
from sdomain import LoopSpec, Z, p_num
from umcd import *

def run(E):
    E.trust("np.sort: a nondecreasing rearrangement (a permutation of the indices)", "np.mean/np.var/np.sum over slices and selections as sums", "inf exceeds every finite variance", "chi2.ppf, chi2.cdf, gamma.cdf: functions of their arguments")
    E.assume("real arithmetic for floating point (which of two windows with equal variance up to rounding is taken is not decided)", "finite data (base class contract, C03), 1 <= h <= n (C11)",
             "textbook lemma, not machine-checked here: a subset of size h of minimal variance can be chosen among the windows of the ordered sample")
    for cc in (True, False):
        d = E.sdomain()
        with d:
            m = World(d).module(MCD); n, h = d.int("n"), d.int("h"); w, i = z3.Ints("w i"); d.base += [n.e >= 2, h.e >= 1, h.e <= n.e, w >= 0, w <= n.e - h.e, i >= 0, i < n.e]; d.index_terms += [w, i]
            def raw():
                X = d.array("x", n); u = m.UnivariateMCD(consistency_correction=cc); u.h_size = h; scan_loop(d, X, h.e, w)
                rv, rl = u._get_raw_estimates(X); rv, rl = d.num(rv), d.num(rl)
                # the index the location was taken from
                f = factor(d, h.e, n.e) if cc else RV(1)
                d.assume(f > 0)
                d.prove("no window of h consecutive ordered observations has a smaller variance than the raw variance before the factor", rv.e / f <= wvar(d, X, h.e, w))
                idx = d.fresh("at", I)
                js = [t for t in d.pcterms("index_best")]
                d.prove("raw location and variance are the mean and variance of the same window", z3.Or(*[z3.And(j >= 0, j <= n.e - h.e, rl.e == d.handlers["numpy.mean"](window(d, X, h.e, j)).e, rv.e == f * wvar(d, X, h.e, j)) for j in js]))
                d.prove("defined", z3.And(rv.ok, rl.ok))
            E.unit(d, f"UnivariateMCD._get_raw_estimates(consistency_correction={cc})", raw)
            def rew():
                X = d.array("x", n); u = m.UnivariateMCD(consistency_correction=cc); u.raw_location_, u.raw_variance_ = d.real("rl"), d.real("rv"); d.assume(u.raw_variance_.e > 0)
                v, l = u._reweighting(X); q = d.handlers["scipy.stats.chi2.ppf"](0.975, df=1).e
                xi = real(X.body); keep = subst((xi - u.raw_location_.e) * (xi - u.raw_location_.e) / u.raw_variance_.e < q, [(K[0], Z)]); x = subst(xi, [(K[0], Z)])
                c = d.sum_term(RV(1), n.e, keep); d.assume(c > 0)
                mean = d.sum_term(x, n.e, keep) / c; var = d.sum_term((x - mean) * (x - mean), n.e, keep) / c
                dl = c / z3.ToReal(n.e)
                g = dl * (1 / d.handlers["scipy.stats.gamma.cdf"](Num(d.handlers["scipy.stats.chi2.ppf"](Num(dl), df=1).e / 2), a=1.5).e) if cc else RV(1)
                d.prove("location: mean of the observations within the 97.5% cutoff of the raw estimate", d.num(l).e == mean)
                d.prove("variance: their variance times the stated factor", d.num(v).e == var * g)
            E.unit(d, f"UnivariateMCD._reweighting(consistency_correction={cc})", rew)
            def calc():
                X = d.array("x", n); u = m.UnivariateMCD(consistency_correction=cc); rv, rl, v, l = (d.real(s) for s in ("rv", "rl", "v", "l")); d.assume(rv.e >= 0); d.assume(v.e >= 0)
                hs = d.int("hs"); d.assume(z3.And(hs.e >= 1, hs.e <= n.e))
                u._set_h_size = lambda Y: (setattr(u, "h_size", hs), d.prove("the subset size is set for these data", Y.at(i).e == X.at(i).e))[0]
                u._get_raw_estimates = lambda Y: (d.prove("raw estimates of these data", z3.And(Y.at(i).e == X.at(i).e, Y.shape_[0] == n.e)), (rv, rl))[1]
                def rw(Y):
                    d.prove("reweighting starts from the raw estimates", z3.And(d.num(u.raw_location_).e == rl.e, d.num(u.raw_variance_).e == rv.e, Y.at(i).e == X.at(i).e, Y.shape_[0] == n.e)); return v, l
                u._reweighting = rw
                u._calculate(X); g = lambda s: d.num(getattr(u, s)).e
                H = d.handlers; full = hs.e == n.e
                mean, var = H["numpy.mean"](X).e, H["numpy.var"](X).e
                d.prove("h = n: classical mean", z3.Implies(full, z3.And(g("location_") == mean, g("raw_location_") == mean)))
                d.prove("h = n: classical variance and standard deviation", z3.Implies(full, z3.And(g("variance_") == var, g("raw_variance_") == var, g("scale_") == SQRT(var), g("raw_scale_") == SQRT(var))))
                d.prove("raw estimates reported are the window's", z3.Implies(Not(full), z3.And(g("raw_location_") == rl.e, g("raw_variance_") == rv.e, g("raw_scale_") == SQRT(rv.e))))
                d.prove("final estimates are the reweighted ones (the raw ones when the raw variance is zero)", z3.Implies(Not(full), z3.If(rv.e == 0, z3.And(g("location_") == rl.e, g("variance_") == rv.e), z3.And(g("location_") == l.e, g("variance_") == v.e))))
                d.prove("scale is the root of the variance", z3.Implies(Not(full), g("scale_") == SQRT(g("variance_"))))
            E.unit(d, f"UnivariateMCD._calculate(consistency_correction={cc})", calc)

"""C02: estimates do not depend on the order of the observations; per-observation outputs are permuted along"""
from trun import *
from tdom import *
from core import World
import types
from frame import function_of

PI = lambda k: sym("perm:pi", k, integer=True)
def permute(x):
    """rows rearranged by the permutation pi"""
    if isinstance(x, FrameT): return x.wrap(permute(x.data))
    return A(x.shape_, subst(x.body, {Kn(0): PI(KV[0])}), x.dt, tuple(subst(f, {Kn(0): PI(KV[0])}) if d == 0 else f for d, f in enumerate(x.filt)))
CUT = 60
def acts(n): return [IDENT, Act("rows permuted", permute, lambda x: isinstance(x, A) and x.shape_ and x.shape_[0] is n)]

class Est:
    """a univariate estimator: location and scale are functionals of the sample as a multiset (the contract proved for each of them here)"""
    _opaque = True
    def __init__(self, d): self.d = d
    def fit(self, X, ignore_nan=False):
        H = self.d.handlers; r = types.SimpleNamespace(); r.location = H["estimator.location"](X); r.scale = H["estimator.scale"](X); return r
def est_contract(d):
    d.handlers["estimator.location"] = d.aggf("est_location", "loc", True); d.handlers["estimator.scale"] = d.aggf("est_scale", "scale", False)

def run(E):
    from tcontracts import install
    def new():
        d = TDomain(); d.engine = E; d.acts = [IDENT]; return d
    def R(W): return W.module("robpy.utils.rho")
    def est(mod, what, mk):
        d = new()
        with d:
            W = World(d); m = W.module(mod)
            def f():
                n = d.int("n", 2); d.acts = acts(P_(n)); x = d.array("x", n)
                if hasattr(m, "_get_small_sample_dn"): m._get_small_sample_dn = lambda k: R_(sym("dn", P_(k), pos=True))
                def go(X): e = mk(m, W); e.fit(X); return e.location, e.scale
                def cmp(r1, r2):
                    d.prove_same("location(permuted x) = location(x)", r2[0], r1[0]); d.prove_same("scale(permuted x) = scale(x)", r2[1], r1[1])
                d.relate(lambda: go(x), lambda: go(permute(x)), cmp)
            E.unit(d, what, f)
    est("robpy.univariate.onestep_m", "OneStepM.fit (Huber/Huber)", lambda m, W: m.OneStepM(R(W).Huber(R_(sym("b1", pos=True))), R(W).Huber(R_(sym("b2", pos=True))), R_(sym("delta", pos=True)), R_(sym("minscale", pos=True))))
    est("robpy.univariate.onestep_m", "OneStepM.fit (bisquare/Huber)", lambda m, W: m.OneStepM(R(W).TukeyBisquare(R_(sym("b1", pos=True))), R(W).Huber(R_(sym("b2", pos=True))), R_(sym("delta", pos=True)), R_(sym("minscale", pos=True))))
    est("robpy.univariate.onestep_m", "OneStepWrapping.fit", lambda m, W: m.OneStepWrapping())
    for cc in (True, False): est("robpy.univariate.tau", f"Tau.fit(consistency_correction={cc})", lambda m, W: m.Tau(R_(sym("c1", pos=True)), R_(sym("c2", pos=True)), consistency_correction=cc))
    for cc in (True, False): est("robpy.univariate.mcd", f"UnivariateMCD.fit(consistency_correction={cc})", lambda m, W: m.UnivariateMCD(None, consistency_correction=cc))
    est("robpy.univariate.mcd", "UnivariateMCD.fit(proportion)", lambda m, W: m.UnivariateMCD(R_(sym("alpha", pos=True))))
    est("robpy.univariate.mcd", "UnivariateMCD.fit(integer)", lambda m, W: m.UnivariateMCD(A((), sym("h", pos=True, integer=True), "i")))
    for c1 in (True, False): est("robpy.univariate.qn", f"Qn.fit(corrections={c1})", lambda m, W: m.Qn(consistency_correction=c1, finite_correction=c1))
    def unit(what, mod, build, run, compare, cut=0):
        d = new(); d.cutsize = cut
        with d:
            est_contract(d); W = World(d); m = W.module(mod)
            def f():
                n = d.int("n", 2); d.acts = acts(P_(n)); x = build(d, n)
                d.relate(lambda: run(d, m, W, x), lambda: run(d, m, W, permute(x)), lambda a, b: compare(d, a, b))
            E.unit(d, what, f)
    mat = lambda d, n: d.array("x", n, d.int("p", 1))
    T = "robpy.preprocessing.transfo"; C = "RobustPowerTransformer"
    OUT = dict(_calculate_lambda_0=1, _reweighted_max_likelihood_robust=3)
    for nm in OUT: function_of(E, "depends on its arguments only", T, C, nm, ())
    for meth in ("boxcox", "yeojohnson"):
        def rp(d, m, W, X, meth=meth):
            cls = m.RobustPowerTransformer
            for nm, k in OUT.items():
                def g(self, *args, nm=nm, k=k, **kw):
                    r = tuple(d.opaque(f"{nm}/{i}", *args, kw) if kw else d.opaque(f"{nm}/{i}", *args) for i in range(k)); return r if k > 1 else r[0]
                setattr(cls, nm, g)
            t = cls(method=meth); t.fit(X); return t.transform(X), t.lambda_rew
        def cp(d, a, b): d.prove_same("transformed data are permuted along", b[0], permute(a[0])); d.prove_same("lambda unchanged", b[1], a[1])
        unit(f"RobustPowerTransformer({meth}).fit / transform", T, lambda d, n, meth=meth: d.array("x", n, pos=meth != "yeojohnson"), rp, cp)
    def rs(d, m, W, X): s = m.RobustScaler(Est(d)); s.fit(X); return s.transform(X), s.inverse_transform(X)
    unit("RobustScaler.fit / transform", "robpy.preprocessing.scaling", mat, rs, lambda d, a, b: (d.prove_same("scaled data are permuted along", b[0], permute(a[0])), d.prove_same("inverse transform is permuted along", b[1], permute(a[1]))))
    def ab(d, m, W, X): return [(b.median, b.q1, b.q3, b.lower_whisker, b.upper_whisker) for b in m.adjusted_boxplot(X, plot=False)]
    for k in (1, 2): unit(f"adjusted_boxplot ({k} column{'s' * (k > 1)})", "robpy.univariate.adjusted_boxplot", lambda d, n, k=k: d.array("x", n, k), ab, lambda d, a, b: d.prove_same("boxplot statistics unchanged", b, a))
    def cov(d, a, b):
        for nm in ("covariance_", "location_", "precision_", "default_covariance_", "correlation_"):
            if hasattr(a, nm): d.prove_same(nm + " unchanged", getattr(b, nm), getattr(a, nm))
        for nm in ("_robust_distances", "_mahalanobis_distances"): d.prove_same(nm + " permuted along", getattr(b, nm), permute(getattr(a, nm)))
    def og(d, m, W, X, **k):
        f = lambda nm: (lambda v, axis=None: d.handlers["estimator." + nm](v, axis)); return m.OGK(n_iterations=d.int("niter", 0), location_estimator=f("location"), scale_estimator=f("scale"), **k).fit(X)
    for k in (dict(), dict(reweighting=True), dict(assume_centered=True)): unit(f"OGK.fit {k}", "robpy.covariance.ogk", mat, lambda d, m, W, X, k=k: og(d, m, W, X, **k), cov, CUT)
    def ke(d, m, W, X): m.Qn = lambda: Est(d); return m.KendallTau().fit(X)
    unit("KendallTau.fit", "robpy.covariance.kendall", mat, ke, cov)
    unit("WrappingCovariance.fit", "robpy.covariance.wrapping", mat, lambda d, m, W, X: m.WrappingCovariance().fit(X), cov, CUT)
    def wr(d, m, W, X): return [m.wrapping_transformation(X, rescale=r) for r in (True, False)]
    unit("wrapping_transformation", "robpy.preprocessing.utils", mat, wr, lambda d, a, b: d.prove_same("wrapped data permuted along", b, [permute(y) for y in a]))

"""C01: univariate estimates and scaling follow a change of units and origin"""
from trun import *
from tdom import *
from core import World
import types
from frame import function_of

def acts():
    a, b = sym("a", pos=True), sym("b")
    f = lambda nm, g: Act(nm, g, lambda x: x.dt == "f")
    return a, b, [IDENT, f("a*x + b", lambda x: add(mul(a, x.body), b)), f("a*x", lambda x: mul(a, x.body)), f("a^2*x", lambda x: mul(mul(a, a), x.body)), f("x/a", lambda x: mul(inv(a), x.body))]

def run(E):
    E.assume("one-step M: the MAD is not below the minimal scale (non-degenerate data), in both units", "power transforms: the numerical minimisation (scipy minimize_scalar) is a function of its arguments (a frame condition of the fitting internals, checked)")
    from tcontracts import install
    def new():
        d = TDomain(); d.engine = E; a, b, d.acts = acts(); return d, R_(a), R_(b)
    def est(mod, what, mk, force=None):
        d, a, b = new()
        with d:
            W = World(d); m = W.module(mod)
            def f():
                n = d.int("n", 2); x = d.array("x", n)
                if force: force(d, x, a, b)
                if hasattr(m, "_get_small_sample_dn"): m._get_small_sample_dn = lambda k: R_(sym("dn", P_(k), pos=True))
                def go(X): e = mk(m, W); e.fit(X); return e.location, e.scale
                def cmp(r1, r2):
                    d.prove_same("location(a*x + b) = a*location(x) + b", r2[0], a * r1[0] + b)
                    d.prove_same("scale(a*x + b) = a*scale(x)", r2[1], a * r1[1])
                d.relate(lambda: go(x), lambda: go(a * x + b), cmp)
            E.unit(d, what, f)
    R = lambda W: W.module("robpy.utils.rho")
    def nomin(d, x, a, b):
        H = d.handlers; m = H["scipy.stats.median_abs_deviation"](x, scale="normal")
        for s in (m, a * m): d.force(s < R_(sym("minscale", pos=True)), False)
    est("robpy.univariate.onestep_m", "OneStepM.fit (Huber/Huber)", lambda m, W: m.OneStepM(R(W).Huber(R_(sym("b1", pos=True))), R(W).Huber(R_(sym("b2", pos=True))), R_(sym("delta", pos=True)), R_(sym("minscale", pos=True))), nomin)
    est("robpy.univariate.onestep_m", "OneStepM.fit (bisquare/Huber)", lambda m, W: m.OneStepM(R(W).TukeyBisquare(R_(sym("b1", pos=True))), R(W).Huber(R_(sym("b2", pos=True))), R_(sym("delta", pos=True)), R_(sym("minscale", pos=True))), nomin)
    est("robpy.univariate.onestep_m", "OneStepWrapping.fit", lambda m, W: m.OneStepWrapping(), nomin)
    for cc in (True, False): est("robpy.univariate.tau", f"Tau.fit(consistency_correction={cc})", lambda m, W: m.Tau(R_(sym("c1", pos=True)), R_(sym("c2", pos=True)), consistency_correction=cc))
    for cc in (True, False): est("robpy.univariate.mcd", f"UnivariateMCD.fit(consistency_correction={cc})", lambda m, W: m.UnivariateMCD(None, consistency_correction=cc))
    est("robpy.univariate.mcd", "UnivariateMCD.fit(proportion)", lambda m, W: m.UnivariateMCD(R_(sym("alpha", pos=True))))
    est("robpy.univariate.mcd", "UnivariateMCD.fit(integer)", lambda m, W: m.UnivariateMCD(A((), sym("h", pos=True, integer=True), "i")))
    for c1 in (True, False): est("robpy.univariate.qn", f"Qn.fit(corrections={c1})", lambda m, W: m.Qn(consistency_correction=c1, finite_correction=c1))

    # ---- the feature scaler, over any scale estimator that satisfies the contract just proved (and its inverse)
    class Est:
        """contract of a univariate estimator: location(a*x + b) = a*location + b, scale(a*x + b) = a*scale"""
        _opaque = True
        def __init__(self, d): self.d = d
        def fit(self, X, ignore_nan=False):
            H = self.d.handlers; r = types.SimpleNamespace(); r.location = H["estimator.location"](X); r.scale = H["estimator.scale"](X); return r
    for cen in (True, False):
        for sca in (True, False):
            if not (cen and sca): continue
            d, a, b = new()
            with d:
                d.handlers["estimator.location"] = d.aggf("est_location", "loc", True); d.handlers["estimator.scale"] = d.aggf("est_scale", "scale", False)
                W = World(d); m = W.module("robpy.preprocessing.scaling")
                def f(d=d, m=m):
                    n, p = d.int("n", 2), d.int("p", 1); X = d.array("x", n, p); Z = d.array("z", d.int("m", 1), p)
                    aj = A((p.body,), sym("a", KV[0], pos=True)); bj = A((p.body,), sym("b", KV[0]))
                    def go(X, Z): s = m.RobustScaler(Est(d)); s.fit(X); return s.transform(X), s.transform(Z), s.inverse_transform(Z)
                    def cmp(r1, r2):
                        d.prove_same("transform(a_j*x_ij + b_j) after fitting it = transform(x)", r2[0], r1[0])
                        d.prove_same("the same for new data", r2[1], r1[1])
                    d.relate(lambda: go(X, Z), lambda: go(X * aj + bj, Z * aj + bj), cmp)
                E.unit(d, "RobustScaler.fit / transform", f)
    # ---- power transforms: the fitting internals are functions of the (pre-standardised) data they are given (frame obligations)
    T = "robpy.preprocessing.transfo"; C = "RobustPowerTransformer"
    OUT = dict(_calculate_lambda_0=1, _reweighted_max_likelihood_robust=3, _robnormality=1)
    for nm in OUT: function_of(E, "depends on its arguments only", T, C, nm, ())
    for meth in ("boxcox", "yeojohnson"):
        d, a, b = new()
        with d:
            W = World(d); m = W.module(T)
            def f(d=d, m=m, a=a, b=b, meth=meth):
                n = d.int("n", 2); x = d.array("x", n, pos=meth != "yeojohnson"); cls = m.RobustPowerTransformer
                for nm, k in OUT.items():
                    def g(self, *args, nm=nm, k=k, **kw):
                        r = tuple(d.opaque(f"{nm}/{i}", *args, kw) if kw else d.opaque(f"{nm}/{i}", *args) for i in range(k)); return r if k > 1 else r[0]
                    setattr(cls, nm, g)
                def go(X):
                    t = cls(method=meth); t.fit(X); return t.transform(X), t.lambda_rew
                def cmp(r1, r2):
                    d.prove_same("transformed data unchanged", r2[0], r1[0]); d.prove_same("lambda unchanged", r2[1], r1[1])
                d.relate(lambda: go(x), lambda: go(a * x if meth != "yeojohnson" else a * x + b), cmp)
            E.unit(d, f"RobustPowerTransformer({meth}).fit / transform", f)

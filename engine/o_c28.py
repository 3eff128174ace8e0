"""C28: S- and MM-regression, function by function"""
from tform import *
import types
npm = lambda d, nm: d.handlers["numpy." + nm]
class Rho:
    """any rho function: psi and rho act entry by entry"""
    _opaque = True
    def psi(self, u): return lift(lambda p: fun("psi", p), u)
    def rho(self, u): return lift(lambda p: fun("rho", p, pos=True), u)
class Start:
    """any fitted model with coefficients"""
    def __init__(self, P): self.coef_ = A((P,), sym("coef:start", KV[0])); self.intercept_ = R_(sym("icpt:start"))
    def predict(self, X): return matmul(X, self.coef_) + self.intercept_
class Res:
    """any fitted statsmodels model"""
    def __init__(self, params, tag): self.params = params; self.tag = R_(tag); self.n_iter = S_(ZERO)     # the tag names the fit: its scale is a function of it
    def predict(self, X): return matmul(X, self.params)
scale_of = lambda g: R_(fun("scale of the fit", P_(g.tag), pos=True))
def scales_of(l):
    n, f = l.head if l.adds else (l.n, l.fn); r = SymList(n, lambda k: scale_of(f(k)))
    for x in l.adds: r.append(scale_of(x.fn(ZERO)))
    return r
paired = lambda ms, ss: lambda d: {ss: lambda L: L[ss] if getattr(aslist(L[ms]), "unknown", False) else scales_of(aslist(L[ms]))}     # invariant: every scale belongs to the model at its place
same = lambda d, a, b: d.same(a, b)[0]
def run(E):
    M = "robpy.regression.mm"
    def mm(d, m, W, one):
        n, p = d.int("n", 2), S_(ONE) if one else d.int("p", 2); P = P_(p); X, y = d.array("x", n, p), d.array("y", n); s = R_(sym("s", pos=True)); start = Start(P); start.scale = s
        est = types.SimpleNamespace(fit=lambda X, y: start); est._opaque = True
        its = sym("maxit", pos=True, integer=True); setlow(its, 1)
        o = m.MMRegression(initial_estimator=est, rho=Rho(), max_iterations=S_(its), epsilon=R_(sym("epsilon", pos=True))); d.o = o; d.X = X; d.y = y; d.s = s
        o.fit(X, y); d.prove_same("the scale reported is that of the initial fit", o._scale, s); d.prove_same("scale", o.scale, s)
        hd = [h for h in d.heads if ("self", "model") in h]
        if not hd: raise Unsupported("no loop over refinement steps")
        a, b = hd[-1][("self", "model")], o.model
        d.record("the model reported is the last refinement", "proved" if same(d, (a.coef_, a.intercept_), (b.coef_, b.intercept_)) or (lambda w: same(d, (w.coef_, w.intercept_), (b.coef_, b.intercept_)))(step(d, a)) else "failed")
    def step(d, prev):
        """least squares with weights psi(r/s)/(r/s) for the residuals r of the previous fit"""
        r = d.y - prev.predict(d.X); u = r / d.s; w = npm(d, "where")(u != 0, lift(lambda p: fun("psi", p), u) / u, A(u.shape_, ONE))
        return d.LR().fit(npm(d, "reshape")(d.X, (-1, 1)) if d.X.shape_[1] is ONE else d.X, d.y, sample_weight=w)
    def mh(tl, hv, loc):
        d = tl.d
        if ("self", "model") not in hv: return
        w = step(d, hv[("self", "model")]); g = loc["self"].model
        d.prove_same("each refinement is the weighted fit with the weights of the previous residuals: coefficients", g.coef_, w.coef_); d.prove_same("... intercept", g.intercept_, w.intercept_)
        d.prove_same("the scale stays that of the initial fit", loc["self"]._scale, d.s); d.prove_same("counted iterations", loc["self"].n_iter, S_(tl.k + ONE))
    for one in (False, True): unit(E, f"MMRegression.fit ({'p = 1' if one else 'p > 1'})", M, lambda d, m, W, one=one: mm(d, m, W, one), hooks=[mh], need=["each refinement is the weighted fit"])

    M = "robpy.regression.s"
    def new(d, m, **k):
        q = dict(n_initial_subsets=S_(low("starts", 1)), n_initial_i_steps=2, n_best_subsets=S_(low("best", 1)), max_scale_iterations=S_(low("scaleit", 1)), b=R_(sym("b", pos=True)), relative_tolerance=R_(sym("rtol", pos=True)), scale_tolerance=R_(sym("stol", pos=True)), random_state=0); q.update(k)
        return m.SRegression(rho=Rho(), **q)
    def low(nm, k): v = sym(nm, pos=True, integer=True); setlow(v, k); return v
    upd = lambda d, s0, r, b: s0 * lift(lambda p: pw(p, Fr(1, 2)), npm(d, "mean")(lift(lambda p: fun("rho", p, pos=True), r / s0)) / b)
    def gs(d, m, W):
        n = d.int("n", 2); r = d.array("r", n); o = new(d, m); s0 = R_(sym("s0", pos=True)); d.r = r; d.b = o.b
        v = o._get_scale(s0, r); hd = [h for h in d.heads if "s0" in h]
        if not hd: raise Unsupported("no scale iteration")
        a = hd[-1]; d.record("the value returned is a fixed-point update", "proved" if same(d, v, upd(d, a["s0"], r, o.b)) or ("new_s" in a and same(d, v, a["new_s"])) else "failed")
    def gh(tl, hv, loc):
        d = tl.d
        if "s0" in hv: d.prove_same("one step of the fixed-point iteration of the scale equation", loc["s0"], upd(d, hv["s0"], d.r, d.b)); d.prove_same("... whose value is kept", loc["new_s"], loc["s0"])
    unit(E, "SRegression._get_scale", M, lambda d, m, W: single(d, lambda: gs(d, m, W), raises=("UnboundLocalError",)), hooks=[gh], need=["one step of the fixed-point"])
    def ist(d, m, W, given):
        n, p = d.int("n", 2), d.int("p", 1); X, y, r = d.array("x", n, p), d.array("y", n), d.array("r", n); o = new(d, m); S = []
        o._get_scale = lambda s0, residuals: (S.append((s0.copy() if hasattr(s0, "copy") else s0, A(residuals.shape_, residuals.body))), R_(fun("scaleof", P_(s0), P_(d.opaque("res", residuals)), pos=True)))[1]
        s0 = R_(sym("s0", pos=True)) if given else npm(d, "median")(npm(d, "abs")(r)) / 0.6745; r0 = A(r.shape_, r.body)
        g, s = o._i_step(X, y, r, s0) if given else o._i_step(X, y, r)
        e = npm(d, "finfo")().eps; r1 = npm(d, "where")(r0 == 0, e, r0); sc = R_(fun("scaleof", P_(s0), P_(d.opaque("res", r0)), pos=True)); u = r1 / sc
        w = lift(lambda p: fun("psi", p), u) / u; f = d.handlers["statsmodels.api.WLS"](y, X, weights=w).fit()
        d.prove_same("the scale solves the scale equation of the residuals, from their MAD" if not given else "the scale solves the scale equation of the residuals, from the given start", s, sc)
        d.prove_same("weighted least squares with weights psi(r/s)/(r/s)", g.params, f.params); d.prove_same("the weights reported", g.weights, w)
    for g in (False, True): unit(E, f"SRegression._i_step ({'given start' if g else 'start from the residuals'})", M, lambda d, m, W, g=g: single(d, lambda: ist(d, m, W, g), raises=("LinAlgError",)))
    def istub(d, o, P, resid=False):
        d.steps = []
        def f(X, y, r, initial_scale=None):
            g = Res(A((P,), d.opaque("istep:params", X, y, r, out=(P,)).body), P_(d.opaque("istep", X, y, r))); s = scale_of(g)
            if resid: g.resid = y - matmul(X, g.params)
            d.steps.append((X, y, A(r.shape_, r.body), g, s)); return g, s
        o._i_step = f
    def im(d, m, W):
        n, p = d.int("n", 3), d.int("p", 1); X, y = d.array("x", n, p), d.array("y", n); o = new(d, m); istub(d, o, P_(p), True); d.X = X; d.y = y
        ms, ss = o._get_initial_models(X, y); d.prove_same("every scale belongs to the model at its place", ss, SymList(aslist(ms).n, lambda k: scale_of(aslist(ms).fn(k))))
    def imh(tl, hv, loc):
        d = tl.d
        if not {"models", "scales"} <= set(hv): return
        a, b = aslist(loc["models"]), aslist(loc["scales"]); a0, b0 = aslist(hv["models"]), aslist(hv["scales"])
        if a.n is a0.n and b.n is b0.n: d.record("a start is dropped from both lists", "proved"); return
        d.prove_same("one more model", S_(a.n), S_(a0.n + ONE)); st = d.steps[-1]
        d.record("model and scale of the same last step enter the lists", "proved" if d.steps and same(d, a.fn(a.n - ONE).params, st[3].params) and same(d, b.fn(b.n - ONE), st[4]) else "failed")
        if len(d.steps) > 1: d.prove_same("each step starts from the residuals of the one before", d.steps[-1][2], d.steps[-2][3].resid)
        d.record("steps on the given data", "proved" if all(s[0] is d.X and s[1] is d.y for s in d.steps) else "failed")
    unit(E, "SRegression._get_initial_models", M, lambda d, m, W: single(d, lambda: im(d, m, W), raises=("LinAlgError",)), hooks=[imh], invs=[paired("models", "scales")], need=["model and scale of the same last step"])
    def fit(d, m, W, ic):
        n, p = d.int("n", 3), d.int("p", 2); P = P_(p) + (ONE if ic else ZERO); X, y = d.array("x", n, p), d.array("y", n); o = new(d, m, fit_intercept=ic); istub(d, o, P); k = low("kept", 1)
        o._get_initial_models = lambda X, y: (setattr(d, "XX", X), (lambda l: (l, SymList(k, lambda j: scale_of(l.fn(j)))))(SymList(k, lambda j: Res(A((P,), sym("start", j, KV[0])), sym("starttag", j)))))[1]
        d.y = y; o._converged = lambda a, b: A((), of(mk("bool", "converged", P_(d.opaque("conv", a, b)))), "b")
        o.fit(X, y); Z = d.handlers["statsmodels.api.add_constant"](X) if ic else X; d.prove_same("design matrix", d.XX, Z)
        hd = [h for h in d.heads if {"best_models", "best_scales"} <= set(h)]
        if not hd: raise Unsupported("no loop over candidates")
        a, b = aslist(hd[-1]["best_models"]), aslist(hd[-1]["best_scales"]); i = npm(d, "argmin")(b)
        d.prove_same("the scale reported is the smallest of the candidates", o._scale, b[i]); d.prove_same("the model reported is the candidate with that scale", o.model.params, a[i].params); d.prove_same("the scale reported belongs to the model reported", o._scale, scale_of(o.model))
    def fh(tl, hv, loc):
        d = tl.d
        if tl.it is None and "previous_m" in hv:       # the refinement of one candidate
            st = d.steps[-1]; d.prove_same("each step starts from the residuals of the model before", st[2], hv["previous_m"].predict(d.XX) - d.y); d.record("the next step starts from the model and scale of this one", "proved" if same(d, loc["previous_m"].params, st[3].params) and ("previous_s" not in loc or same(d, loc["previous_s"], st[4])) else "failed"); d.record("steps on the given data", "proved" if st[0] is d.XX and st[1] is d.y else "failed"); return
        if not {"best_models", "best_scales"} <= set(hv): return
        a, b = aslist(loc["best_models"]), aslist(loc["best_scales"]); a0, b0 = aslist(hv["best_models"]), aslist(hv["best_scales"]); st = d.steps[-1]
        d.prove_same("one candidate per start: models", S_(a.n), S_(a0.n + ONE)); d.prove_same("one candidate per start: scales", S_(b.n), S_(b0.n + ONE))
        d.record("model and scale of the same refinement step enter the lists", "proved" if same(d, a.fn(a.n - ONE).params, st[3].params) and same(d, b.fn(b.n - ONE), st[4]) else "failed")
    for ic in (True, False): unit(E, f"SRegression.fit (intercept={ic})", M, lambda d, m, W, ic=ic: fit(d, m, W, ic), keep=True, hooks=[fh], invs=[paired("best_models", "best_scales")], need=["model and scale of the same refinement step", "each step starts from"])
    def pr(d, m, W, ic):
        n, p = d.int("n", 2), d.int("p", 2); X = d.array("x", n, p); o = new(d, m, fit_intercept=ic); o.model = Res(A((P_(p) + (ONE if ic else ZERO),), sym("params", KV[0])), sym("tag"))
        d.prove_same("predictions", o.predict(X), o.model.predict(d.handlers["statsmodels.api.add_constant"](X) if ic else X))
    for ic in (True, False): unit(E, f"SRegression.predict (intercept={ic})", M, lambda d, m, W, ic=ic: pr(d, m, W, ic))

"""C12: LTS, function by function"""
from tform import *
M = "robpy.regression.lts"
npm = lambda d, nm: d.handlers["numpy." + nm]
class Fit:
    """any fitted linear model: its predictions are a function of the rows"""
    def __init__(self, d, nm, p, *v):
        self.coef_ = A((ONE, p), sym("coef:" + nm, *v, KV[1])); self.intercept_ = A((ONE,), sym("icpt:" + nm, *v))
    def predict(self, X): return matmul(X, self.coef_.T) + self.intercept_
def data(d):
    n, p = d.int("n", 2), d.int("p", 1); return n, p, d.array("x", n, p), d.handlers["numpy.reshape"](d.array("y", n), (-1, 1))
def run(E):
    L = lambda m: m.FastLTSRegression
    def hs(d, m, W):
        n, p, X, y = data(d); h = d.int("h"); f = Fit(d, "m", P_(p)); r = y - f.predict(X)
        d.prove_same("the h observations with the smallest squared residuals", L(m)._get_h_subset(f, X, y, h), npm(d, "argsort")(npm(d, "abs")(r).flatten())[:h])
    unit(E, "FastLTSRegression._get_h_subset", M, hs)
    def lv(d, m, W):
        n, p, X, y = data(d); h = d.int("h"); f = Fit(d, "m", P_(p)); i = A((P_(h),), sym("idx", KV[0], integer=True), "i"); r = (y - f.predict(X))[i]
        d.prove_same("mean squared residual of the subset", L(m)._get_loss_value(X, y, i, f), npm(d, "sum")(r * r) / h)
    unit(E, "FastLTSRegression._get_loss_value", M, lv)
    def cs(d, m, W):
        n, p, X, y = data(d); h = d.int("h"); f = Fit(d, "m", P_(p)); i, g = L(m)._apply_C_step(f, X, y, h)
        j = npm(d, "argsort")(npm(d, "abs")(y - f.predict(X)).flatten())[:h]; w = d.LR().fit(X[j], y[j])
        d.prove_same("keeps the h observations with the smallest residuals", i, j); d.prove_same("least squares on exactly those: coefficients", g.coef_, w.coef_); d.prove_same("least squares on exactly those: intercept", g.intercept_, w.intercept_)
    unit(E, "FastLTSRegression._apply_C_step", M, cs)
    def stubs(d, m, P, h):
        K = L(m); d.steps = []
        def step(model, X, y, hh):
            k = len(d.steps); dep = (model.coef_, model.intercept_); i = A((P_(hh),), d.opaque("step:idx", *dep, X, y, hh, out=(P_(hh),)).body, "i")
            f = Fit(d, "x", P); f.coef_ = A((ONE, P), d.opaque("step:coef", *dep, X, y, hh, out=(ONE, P)).body); f.intercept_ = A((ONE,), d.opaque("step:icpt", *dep, X, y, hh, out=(ONE,)).body)
            d.steps.append((model, i, f, X, y, hh)); return i, f
        def loss(X, y, i, model): return R_(d.opaque("loss", X, y, i, model.coef_, model.intercept_).body)
        K._apply_C_step = staticmethod(step); K._get_loss_value = staticmethod(loss); return K
    def conv(d, m, W):
        n, p, X, y = data(d); h = d.int("h"); K = stubs(d, m, P_(p), h); f0 = Fit(d, "m", P_(p)); l0 = R_(sym("loss0")); tol = R_(sym("tol", pos=True)); d.l0 = l0
        f, i, l, it = K._apply_C_steps_untill_convergence(f0, l0, X, y, h, tol)
        st = d.steps[-1]
        d.record("model and subset of the same last step", "proved" if f is st[2] and d.same(i, st[1])[0] else "failed")
        d.prove_same("the loss reported is that of this model on this subset", l, K._get_loss_value(X, y, i, f)); d.record("steps on the given data and size", "proved" if all(s[3] is X and s[4] is y and s[5] is h for s in d.steps) else "failed")
    def hook(tl, hv, loc):
        d = tl.d
        if not {"previous_loss", "current_loss"} <= set(loc): return
        le(d, "a loss that did not fall by more than the tolerance ends the iteration", loc["current_loss"], hv.get("previous_loss", loc["previous_loss"])) if "previous_loss" in hv else None
        d.prove_same("the next reference loss is the current one", loc["previous_loss"], loc["current_loss"])
        d.record("the next step starts from the current model", "proved" if d.steps and loc["current_model"] is d.steps[-1][2] else "failed")
    unit(E, "FastLTSRegression._apply_C_steps_untill_convergence", M, conv, hooks=[hook], need=["a loss that did not fall"])
    def init(d, m, W):
        # every start: the lists hold model, loss and subset of the same last step
        n, p, X, y = data(d); h = d.int("h"); K = stubs(d, m, P_(p), h); o = K(n_initial_subsets=d.int("starts"), n_initial_c_steps=2, random_state=0)
        K._get_initial_model = staticmethod(lambda X, y, seed: Fit(d, "start", P_(p), P_(seed))); K._get_h_subset = staticmethod(lambda f, X, y, hh: A((P_(hh),), d.opaque("hsub", f.coef_, f.intercept_, X, y, hh, out=(P_(hh),)).body, "i"))
        ms, ls, hs_ = o._apply_initial_C_steps(X, y, h, initial_weights=None, verbosity=30)
        for x in (ms, ls, hs_): d.prove_same("one entry per start", S_(aslist(x).n), o.n_initial_subsets)
        k = KV[6]; f = Fit(d, "start", P_(p), k); 
        for _ in range(2): i, f = K._apply_C_step(f, X, y, h)
        g, l, i2 = aslist(ms).fn(k), aslist(ls).fn(k), aslist(hs_).fn(k)
        d.prove_same("model after the initial steps", (g.coef_, g.intercept_), (f.coef_, f.intercept_)); d.prove_same("subset of the last step", i2, i); d.prove_same("loss of that model on that subset", l, K._get_loss_value(X, y, i, f))
    unit(E, "FastLTSRegression._apply_initial_C_steps", M, init)
    def fit(d, m, W, rw, one):
        n, p = d.int("n", 2), S_(ONE) if one else d.int("p", 2); P = P_(p); X = d.array("x", n, p); y = d.array("y", n); nb = sym("nb", pos=True, integer=True); setlow(nb, 1); ns = sym("starts", pos=True, integer=True); setlow(ns, 1)
        K = stubs(d, m, P, None); alpha = R_(sym("alpha", pos=True)); o = K(alpha=alpha, reweighting=rw, n_best_models=S_(nb), tolerance=R_(sym("tol", pos=True)), n_initial_subsets=S_(ns), random_state=0)
        m.get_correction_factor = lambda p, n, alpha: R_(fun("corr", P_(p), P_(n), P_(alpha), pos=True)); m.get_correction_factor_reweighting = lambda p, n, alpha: R_(fun("corrrw", P_(p), P_(n), P_(alpha), pos=True))
        d.ref = []
        def init(X, y, h, initial_weights=None, verbosity=None):
            d.h = h; return SymList(ns, lambda k: Fit(d, "cand", P, k)), SymList(ns, lambda k: R_(sym("candloss", k))), SymList(ns, lambda k: A((P_(h),), sym("candidx", k, KV[0], integer=True), "i"))
        def conv(model, l, X, y, h, tol, *a):
            q = lambda nm, out=(), dt="f": A(out, d.opaque("conv:" + nm, model.coef_, model.intercept_, l, X, y, h, tol, out=out).body, dt)
            f = Fit(d, "x", P); f.coef_ = q("coef", (ONE, P)); f.intercept_ = q("icpt", (ONE,)); r = (f, q("idx", (P_(h),), "i"), R_(q("loss").body), 1); d.ref.append((model, l, r)); return r
        o._apply_initial_C_steps = init; o._apply_C_steps_untill_convergence = conv
        o.fit(X, y, verbosity=30); af = [q for q in d.heads if {"best_loss", "best_model", "best_h_subset"} <= set(q)]
        if not af: raise Unsupported("no loop over the refined candidates")
        d.after = af[-1]; Y = A((P_(n), ONE), subst(y.body, {}), "f"); Y = npm(d, "reshape")(y, (-1, 1)); X = npm(d, "reshape")(X, (-1, 1)) if one else X
        h = npm(d, "max")([S_(floorp(mul(P_(n), P_(alpha)))), (n + p + 1) // 2]); d.prove_same("subset size", d.h, h)
        c1 = fun("corr", P, P_(n), P_(alpha), pos=True); c2 = fun("corrrw", P, P_(n), P_(alpha), pos=True)
        if not rw:
            bl = d.after["best_loss"]; d.record("reports the best model", "proved" if d.same((o.model.coef_, o.model.intercept_), (d.after["best_model"].coef_, d.after["best_model"].intercept_))[0] else "failed")
            d.prove_same("scale is the factor times the root of its loss", o._scale, R_(mul(c1, pw(P_(bl), Fr(1, 2))))); return
        raw = d.after["best_model"]; r = Y - raw.predict(X); k = (npm(d, "abs")(r / npm(d, "std")(r)) <= d.handlers["scipy.stats.norm.ppf"](0.9875)).flatten()
        w = d.LR().fit(X[k], Y[k]); d.prove_same("least squares on the observations with small standardized residual: coefficients", o.model.coef_, w.coef_); d.prove_same("... intercept", o.model.intercept_, w.intercept_)
        i = npm(d, "arange")(n)[k]; d.prove_same("scale is the factor times the root mean squared residual of the observations used", o._scale, R_(mul(c2, pw(P_(K._get_loss_value(X, Y, i, w)), Fr(1, 2)))))
    def fhook(tl, hv, loc):
        d = tl.d
        if not {"best_loss", "best_model", "best_h_subset"} <= set(hv): return
        b = [(x["best_model"], x["best_h_subset"], x["best_loss"]) for x in (hv, loc)]; r = d.ref[-1][2]; c = (r[0], r[1], r[2])
        le(d, "the reported loss never rises", b[1][2], b[0][2]); le(d, "the reported loss is at most that of the refined candidate", b[1][2], c[2])
        eq_ = lambda u, v: d.same((u[0].coef_, u[0].intercept_, u[1], u[2]), (v[0].coef_, v[0].intercept_, v[1], v[2]))[0]
        d.record("model, subset and loss are those of one refined candidate", "proved" if eq_(b[1], b[0]) or eq_(b[1], c) else "failed")
    for rw in (False, True):
      for one in (False, True): unit(E, f"FastLTSRegression.fit (reweighting={rw}, {'p = 1' if one else 'p > 1'})", M, lambda d, m, W, rw=rw, one=one: single(d, lambda: fit(d, m, W, rw, one), raises=("ValueError",)), hooks=[fhook], need=["the reported loss never rises"])
    def pr(d, m, W):
        n, p = d.int("n", 2), d.int("p", 2); X = d.array("x", n, p); o = L(m)(); o.model = Fit(d, "m", P_(p)); d.prove_same("predictions of the fitted model as a column", o.predict(X), npm(d, "reshape")(o.model.predict(X), (-1, 1)))
    unit(E, "FastLTSRegression.predict", M, pr)
    E.assume("least squares on a subset minimises its sum of squares, and the h smallest squared residuals have the smallest sum: hence a concentration step never raises the loss (textbook)")

"""C14: LTS and MM regression under y -> y + Xb + c and y -> s y, function by function: each function is run on the data and on the changed data, with the contracts of the functions it calls"""
from tform import *
npm = lambda d, nm: d.handlers["numpy." + nm]
B, C, SG = (lambda k: sym("beta", KV[k])), sym("gamma"), sym("sigma", pos=True)
class Fit:
    """any fitted linear model"""
    def __init__(self, coef, icpt): self.coef_, self.intercept_ = coef, icpt
    def predict(self, X): return matmul(X, self.coef_.T) + self.intercept_
class Add:
    name = "y + Xb + c"; loss = tol = ONE; scale = ONE
    def y(self, X, y): v = matmul(X, A((X.shape_[1],), B(0))) + R_(C); return y + (v[:, None] if len(y.shape_) == 2 else v)
    def coef(self, v, inv_=False): v = arr(v); q = B(len(v.shape_) - 1); return A(v.shape_, add(v.body, scale(q, -1) if inv_ else q), v.dt, v.filt)
    def icpt(self, v, inv_=False): v = arr(v); return A(v.shape_, add(v.body, scale(C, -1) if inv_ else C), v.dt, v.filt)
    def acts(self, n, p):
        fl = lambda x: x.dt == "f"
        return [IDENT, Act("x + b", lambda x: add(x.body, B(len(x.shape_) - 1)), lambda x: fl(x) and len(x.shape_) >= 1 and x.shape_[-1] is p), Act("x + c", lambda x: add(x.body, C), fl)] + [Act(nm, f, lambda x: fl(x) and len(x.shape_) >= 1 and x.shape_[0] is n) for nm, f in (("x + Xb + c", lambda x: add(x.body, add(self.xb(p), C))), ("x + Xb", lambda x: add(x.body, self.xb(p))))]
    def xb(self, p): return matmul(self.X, A((p,), B(0))).body
class Mul:
    name = "s y"; loss = tol = mul(SG, SG); scale = SG
    def y(self, X, y): return R_(SG) * y
    def coef(self, v, inv_=False): v = arr(v); return A(v.shape_, mul(v.body, inv(SG) if inv_ else SG), v.dt, v.filt)
    icpt = coef
    def acts(self, n, p): fl = lambda x: x.dt == "f"; return [IDENT, Act("s x", lambda x: mul(SG, x.body), fl), Act("s^2 x", lambda x: mul(mul(SG, SG), x.body), fl)]
class Id:
    loss = tol = scale = ONE
    y = staticmethod(lambda X, y: y); coef = staticmethod(lambda v, inv_=False: v); icpt = coef
def tr(T, f): return Fit(T.coef(f.coef_), T.icpt(f.intercept_))
def pair(E, what, mod, T, f, hooks=()):
    """f(d, module, transformation, change of that run) -> the values to compare, with the change each must show"""
    what = f"{what}: {T.name}"; d = TDomain(); d.engine = E; d.keeplists = True; d.listchanged = set(); d.invs = []; d.hooks = list(hooks)
    if E.only and not any(x in what for x in E.only): return
    with d:
        m = None
        try: m = World(d).module(mod)
        except Exception as e:
            if E.claim(): E.unsupported(what, f"{type(e).__name__}: {e}")
            return
        def g():
            n, p = d.int("n", 2), d.int("p", 2); d.acts = T.acts(P_(n), P_(p)); d.np_ = n, p; X, y = d.array("x", n, p), d.array("y", n); T.X = X
            def cmp(a, b):
                for (nm, ch, u), (_, _, v) in zip(a, b): d.prove_same(nm, v, ch(u))
            d.relate(lambda: f(d, m, X, y, Id), lambda: f(d, m, X, T.y(X, y), T), cmp)
        d.T = T; E.unit(d, what, g)
def model(T, f): return [("coefficients", T.coef, f.coef_), ("intercept", T.icpt, f.intercept_)]
same = lambda v: v
def run(E):
    M = "robpy.regression.lts"; L = lambda m: m.FastLTSRegression; col = lambda d, y: npm(d, "reshape")(y, (-1, 1))
    for T in (Add(), Mul()):
        def leaf(name, f): pair(E, "FastLTSRegression." + name, M, T, f)
        base = lambda d: Fit(A((ONE, P_(d.np_[1])), sym("coef", KV[1])), A((ONE,), sym("icpt")))
        lossch = lambda v: arr(v) * R_(T.loss)
        leaf("_get_initial_model", lambda d, m, X, y, t: model(T, L(m)._get_initial_model(X, col(d, y), 7)))
        leaf("_get_h_subset", lambda d, m, X, y, t: [("the same subset", same, L(m)._get_h_subset(tr(t, base(d)), X, col(d, y), d.int("h")))])
        def cs(d, m, X, y, t): i, g = L(m)._apply_C_step(tr(t, base(d)), X, col(d, y), d.int("h")); return [("the same subset", same, i)] + model(T, g)
        leaf("_apply_C_step", cs)
        leaf("_get_loss_value", lambda d, m, X, y, t: [("loss", lossch, L(m)._get_loss_value(X, col(d, y), A((P_(d.int("h")),), sym("idx", KV[0], integer=True), "i"), tr(t, base(d))))])
        # callers: the functions above by their contracts
        def stubs(d, m, t, y0):
            K = L(m); n, p = d.np_; P = P_(p); un = lambda f: (t.coef(f.coef_, True), t.icpt(f.intercept_, True))
            X0, Y0 = d.array("x", n, p), col(d, y0)
            def given(*a):
                if not d.same(a, (X0, Y0))[0]: d.record("the functions called work on the data given", "failed")
            def step(lr_model, X, y, h):
                f = lr_model
                given(X, y)
                q = lambda nm, out, dt="f": A(out, d.opaque("step:" + nm, *un(f), h, out=out).body, dt); return q("idx", (P_(h),), "i"), tr(t, Fit(q("coef", (ONE, P)), q("icpt", (ONE,))))
            def loss(X, y, h_subset_idx, model): given(X, y); return R_(mul(t.loss, d.opaque("loss", h_subset_idx, *un(model)).body))
            K._apply_C_step = staticmethod(step); K._get_loss_value = staticmethod(loss); K._get_h_subset = staticmethod(lambda lr_model, X, y, h: given(X, y) or A((P_(h),), d.opaque("hsub", *un(lr_model), h, out=(P_(h),)).body, "i"))
            K._get_initial_model = staticmethod(lambda X, y, random_state: given(X, y) or tr(t, Fit(A((ONE, P), sym("start:coef", P_(random_state), KV[1])), A((ONE,), sym("start:icpt", P_(random_state)))))); return K
        def conv(d, m, X, y, t):
            K = stubs(d, m, t, y); f, i, l, it = K._apply_C_steps_untill_convergence(tr(t, base(d)), R_(mul(t.loss, sym("loss0"))), X, col(d, y), d.int("h"), R_(mul(t.tol, sym("tol", pos=True))))
            return model(T, f) + [("the same subset", same, i), ("loss", lossch, l)]
        leaf("_apply_C_steps_untill_convergence", conv)
        def init(d, m, X, y, t):
            K = stubs(d, m, t, y); o = K(n_initial_subsets=d.int("starts"), n_initial_c_steps=d.int("csteps", 0), random_state=0); ms, ls, hs = o._apply_initial_C_steps(X, col(d, y), d.int("h"), initial_weights=None, verbosity=30); k = KV[6]
            f = aslist(ms).fn(k); return [("number of starts", same, S_(aslist(x).n)) for x in (ms, ls, hs)] + model(T, f) + [("loss", lossch, aslist(ls).fn(k)), ("the same subset", same, aslist(hs).fn(k))]
        leaf("_apply_initial_C_steps", init)
        def fit(d, m, X, y, t, rw):
            K = stubs(d, m, t, y); n, p = d.np_; P = P_(p); ns, nb = sym("starts", pos=True, integer=True), sym("nb", pos=True, integer=True); setlow(ns, 1); setlow(nb, 1); h_ = []; un = lambda f: (t.coef(f.coef_, True), t.icpt(f.intercept_, True)); inl = lambda l: R_(mul(inv(t.loss), P_(l)))
            o = K(alpha=R_(sym("alpha", pos=True)), reweighting=rw, n_best_models=S_(nb), tolerance=R_(mul(t.tol, sym("tol", pos=True))), n_initial_subsets=S_(ns), random_state=0); X0, Y0 = d.array("x", n, p), col(d, y)
            m.get_correction_factor = lambda p, n, alpha: R_(fun("corr", P_(p), P_(n), P_(alpha), pos=True)); m.get_correction_factor_reweighting = lambda p, n, alpha: R_(fun("corrrw", P_(p), P_(n), P_(alpha), pos=True))
            def init(X, y, h, initial_weights=None, verbosity=None):
                d.same((X, y), (X0, Y0))[0] or d.record("the functions called work on the data given", "failed")
                return SymList(ns, lambda k: tr(t, Fit(A((ONE, P), sym("cand:coef", k, KV[1])), A((ONE,), sym("cand:icpt", k))))), SymList(ns, lambda k: R_(mul(t.loss, sym("candloss", k)))), SymList(ns, lambda k: A((P_(h),), sym("candidx", k, KV[0], integer=True), "i"))
            def conv(f, l, X, y, h, tol, *a):
                d.same((X, y, tol), (X0, Y0, R_(mul(t.tol, sym("tol", pos=True)))))[0] or d.record("the functions called work on the data given", "failed")
                q = lambda nm, out=(), dt="f": A(out, d.opaque("conv:" + nm, *un(f), inl(l), h, out=out).body, dt)
                return tr(t, Fit(q("coef", (ONE, P)), q("icpt", (ONE,)))), q("idx", (P_(h),), "i"), R_(mul(t.loss, q("loss").body)), 1
            o._apply_initial_C_steps = init; o._apply_C_steps_untill_convergence = conv; o.fit(X, y, verbosity=30)
            return model(T, o.model) + [("scale", lambda v: arr(v) * R_(T.scale), o._scale)]
        for rw in (False, True): leaf(f"fit (reweighting={rw})", lambda d, m, X, y, t, rw=rw: fit(d, m, X, y, t, rw))
        leaf("predict", lambda d, m, X, y, t: (lambda o: (setattr(o, "model", tr(t, base(d))), [("residuals", lambda v: arr(v) * R_(T.scale), col(d, y) - o.predict(X))])[1])(L(m)()))
    def mm(d, m, X, y, t):
        n, p = d.np_; P = P_(p); g = d.LR(); f = tr(t, Fit(A((P,), sym("coef", KV[0])), R_(sym("icpt")))); g.coef_, g.intercept_ = f.coef_, arr(f.intercept_); g.n_features_in_ = S_(P); d.LR.scale = R_(sym("scale0", pos=True)); mx = sym("maxit", pos=True, integer=True); setlow(mx, 1)
        class Initial:
            _opaque = True
            def fit(self, X_, y_): d.same((X_, y_), (X, y))[0] or d.record("the initial fit is that of the data given", "failed"); return g
        class Rho:
            _opaque = True
            def psi(self, v): return lift(lambda q: fun("psi", q), v)
        o = m.MMRegression(initial_estimator=Initial(), rho=Rho(), max_iterations=S_(mx), epsilon=R_(sym("eps", pos=True))); o.fit(X, y)
        return model(T, o.model) + [("scale", same, o._scale), ("residuals", same, y - o.predict(X))]
    T = Add(); pair(E, "MMRegression.fit", "robpy.regression.mm", T, mm)
    E.assume("least squares with intercept is equivariant (exact on linear functions of the regressors, linear in the response)", "under y -> s y the tolerance of the LTS iterations is read as relative (scaled with s^2); MM started from an equivariant initial fit with the same scale")

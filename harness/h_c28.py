from reg import *
from sklearn.linear_model import LinearRegression
from robpy.regression import MMRegression, SRegression, FastLTSRegression
from robpy.utils.rho import TukeyBisquare, Huber

class Start:
    """an initial estimator with known fit and scale"""
    def __init__(s, b, sc, col): s.b, s.sc, s.col = b, sc, col
    def fit(s, X, y): return s
    def predict(s, X): r = pred(s.b, X); return r.reshape(-1, 1) if s.col else r
    @property
    def scale(s): return s.sc

def wts(rho, u): return np.where(u == 0, 1., rho.psi(u) / np.where(u == 0, 1., u))

@case("C28", quick=200, tmo=60)
def mm(rng, k):
    X, y = data(rng, nmin=20); n, p = X.shape; rho = [TukeyBisquare(c=3.44), TukeyBisquare(c=6.), Huber(b=1.345)][k % 3]
    b = ls(X, y) + rng.normal(size=p + 1) * .1 / np.r_[1, np.abs(X).max(axis=0)]; s = float(np.median(np.abs(y - pred(b, X))) / .6745 * rng.uniform(.8, 3)); col = bool(k // 3 % 2); T = [1, 2, 5, 500][k % 4]; eps = [1e-7, 1e-3][k // 8 % 2]
    if k % 9 == 0: y[:3] = pred(b, X)[:3]   # zero residuals
    Y = y.reshape(-1, 1) if k // 2 % 2 and col else y
    e = MMRegression(initial_estimator=Start(b, s, col), rho=rho, max_iterations=T, epsilon=eps).fit(X, Y); r = y - pred(b, X); bb = b
    for it in range(T):
        w = wts(rho, r / s)
        if (w > 0).sum() < p + 3: raise Skip()
        bb = ls(X, y, w); r2 = y - pred(bb, X); d = np.abs(r2 - r).max(); r = r2
        if abs(d / eps - 1) < 1e-3: raise Skip()
        if d < eps: break
    req(e.n_iter == it + 1, "MM number of steps", got=e.n_iter, expected=it + 1)
    eq(e.scale, s, "MM scale is not the scale of the initial fit", rtol=1e-12)
    eq(np.ravel(e.predict(X)), pred(bb, X), f"MM fit after {it + 1} steps is not the weighted least squares fit with weights psi(r/s)/(r/s)", rtol=1e-6, X=X, y=y, b=b, s=s)
    eq(coefs(e.model) * np.r_[1, X.std(axis=0)], bb * np.r_[1, X.std(axis=0)], "MM coefficients", rtol=1e-5)

def sfit(k, **kw): return SRegression(**{**dict(n_initial_subsets=[15, 30][k % 2], n_best_subsets=[2, 5][k // 2 % 2], random_state=k % 23, rho=[TukeyBisquare(c=1.547), TukeyBisquare(c=2.)][k // 4 % 2]), **kw})
def mscale(e, s, r):
    for _ in range(e.max_scale_iterations):
        t = s * np.sqrt(np.mean(e.rho.rho(r / s)) / e.b)
        if abs(s - t) < e.scale_tolerance: break
        s = t
    return t

@case("C28", quick=120, tmo=60)
def i_step(rng, k):
    X, y = data(rng, nmin=20); n, p = X.shape; e = sfit(k, max_scale_iterations=[2, 1, 7][k % 3]); A = np.column_stack([np.ones(n), X])
    if not hasattr(e, "_i_step"): raise Skip()
    r = y - pred(ls(X, y), X) + rng.normal(size=n) * .1; sg = [1, -1][k % 2]
    s = mscale(e, np.median(np.abs(r)) / .6745, r); w = wts(e.rho, r / s)
    if (w > 0).sum() < p + 3: raise Skip()
    m, t = e._i_step(A, y, sg * r.copy()); eq(t, s, "i-step scale", rtol=1e-9); b = ls(X, y, w)
    eq(A @ np.ravel(m.params), pred(b, X), "i-step is not the weighted least squares fit with the weights of the current residuals and scale", rtol=1e-6)

@case("C28", quick=80, tmo=60)
def s_regression(rng, k):
    X, y = data(rng, nmin=20, pmax=3); n, p = X.shape; ic = k % 5 != 4; e = sfit(k, fit_intercept=ic); cand = []
    if hasattr(e, "_i_step") and hasattr(e, "_converged"):
        fi, fc = e._i_step, e._converged; last = {}
        def st(*a, **kw): r = fi(*a, **kw); last["r"] = r; return r
        def cv(a, b):
            r = fc(a, b)
            if r and np.array_equal(np.ravel(b), np.ravel(last["r"][0].params)): cand.append((np.array(b), float(last["r"][1])))
            return r
        e._i_step, e._converged = st, cv
    e.fit(X, y); A = np.column_stack([np.ones(n), X]) if ic else X; b = np.ravel(e.model.params); r = y - A @ b
    eq(np.ravel(e.predict(X)), A @ b, "S predict", rtol=1e-9)
    s = mscale(e, np.median(np.abs(r)) / .6745, r); eq(e.scale, s, "S scale is not the scale of the reported coefficients", rtol=1e-4, X=X, y=y)
    w = wts(e.rho, r / s); q = np.sqrt(w); b2 = np.linalg.lstsq(A * q[:, None], y * q, rcond=None)[0]
    eq(A @ b2, A @ b, "S coefficients are not a fixed point of the weighted least squares step", rtol=1e-3, X=X, y=y)
    if cand:
        best = min(c[1] for c in cand); req(e.scale <= best * (1 + 1e-9), "another refined candidate has a smaller scale", reported=e.scale, other=best)
        req(any(np.allclose(c[0], b, rtol=1e-8) and abs(c[1] - e.scale) <= 1e-9 * e.scale for c in cand), "reported coefficients and scale do not belong to the same candidate", coef=b, scale=e.scale, cand=cand)

from multi import *
from scipy.stats import chi2
from robpy.preprocessing import RobustScaler
from robpy.covariance.utils.alter_covariance import truncated_covariance

def objective(X, W, m, S):
    t = 0.0
    for x, w in zip(X, W):
        o = w == 1
        if o.any():
            d = x[o] - m[o]; So = S[np.ix_(o, o)]; t += d @ np.linalg.solve(So, d) + np.linalg.slogdet(So)[1] + o.sum() * np.log(2 * np.pi)
    return t
def cond(x, o, j, m, S):
    """conditional mean and variance of coordinate j given the coordinates o"""
    if not len(o): return m[j], S[j, j]
    b = np.linalg.solve(S[np.ix_(o, o)], S[o, j]); return m[j] + b @ (x[o] - m[o]), S[j, j] - b @ S[o, j]
def em(X, W, m, S):
    n, p = X.shape; Y = X.copy(); B = np.zeros((p, p))
    for i in range(n):
        u = np.where(W[i] == 0)[0]; o = np.where(W[i] == 1)[0]
        if len(u):
            K = np.linalg.solve(S[np.ix_(o, o)], S[np.ix_(o, u)]) if len(o) else np.zeros((0, len(u)))
            Y[i, u] = m[u] + (X[i, o] - m[o]) @ K; B[np.ix_(u, u)] += S[np.ix_(u, u)] - S[np.ix_(u, o)] @ K
    mu = Y.mean(axis=0); return mu, (Y - mu).T @ (Y - mu) / n + B / n
def update(X, W, m, S, q, h):
    """the flags minimising the criterion column by column, in order of the number of unflagged cells"""
    W = W.copy(); n, p = X.shape; gap = np.inf
    for j in np.argsort(W.sum(axis=0), kind="stable"):
        d = np.full(n, np.inf)
        for i in range(n):
            if np.isfinite(X[i, j]):
                o = np.array([k for k in range(p) if k != j and W[i, k] == 1], dtype=int); c, v = cond(X[i], o, j, m, S); d[i] = (X[i, j] - c) ** 2 / v + np.log(v) + np.log(2 * np.pi)
        g = np.where(d <= q[j])[0]
        if len(g) < h: g = np.argsort(d, kind="stable")[:h]; s = np.sort(d); gap = min(gap, s[h] - s[h - 1] if h < n else 1)
        else: gap = min(gap, np.abs(d - q[j]).min())
        W[:, j] = 0; W[g, j] = 1
    return W, gap
def setup(e, X):
    s = RobustScaler(scale_estimator=OneStepWrapping()).fit(X, ignore_nan=True); Z = s.transform(X); n = len(X); a = max(e.alpha, (n // 2 + 1) / n)
    i = InitialDDCW(alpha=a, min_eigenvalue=e.min_eigenvalue).fit(Z); Z[np.abs(Z) > 3] = np.nan
    return s, Z, i, a, round(a * n), chi2.ppf(.99, 1) - np.log(np.diag(np.linalg.inv(i.covariance_))) + np.log(2 * np.pi)
CFG = [dict(), dict(alpha=.6), dict(alpha=.5), dict(alpha=.9), dict(quantile=.95), dict(quantile=.9999), dict(min_eigenvalue=.05), dict(crit=1e-9), dict(max_c_steps=3)]
def data(rng, k):
    X = cdata(rng, "CellMCD", nan=k % 3 == 1)
    if k % 4 == 2: X[int(rng.integers(len(X)))] += 6 * np.nanstd(X, axis=0) * rng.choice([-1, 1], size=X.shape[1])
    if k % 7 == 3: X[int(rng.integers(len(X)))] = np.nan
    if k % 5 == 4: X[: len(X) // 8, 0] += 7 * np.nanstd(X[:, 0]); X = X[rng.permutation(len(X))]
    return X

@case("C20", quick=200, tmo=60)
def flags(rng, k):
    c = CFG[k % len(CFG)]; X = data(rng, k // len(CFG)); e = fitc(lambda: CellMCD(**c), X); n, p = X.shape; W = e.W; a = max(e.alpha, (n // 2 + 1) / n); h = round(a * n)
    req(W.shape == X.shape and np.isin(W, (0, 1)).all(), f"CellMCD({c}): W is not binary", X=X); req((W[np.isnan(X)] == 0).all(), f"CellMCD({c}): a missing cell is not flagged", X=X)
    req((W.sum(axis=0) >= h).all(), f"CellMCD({c}): a column keeps fewer than h={h} unflagged cells", kept=W.sum(axis=0), X=X)
    req(np.array_equal(e.X_imputed[W == 1], X[W == 1]), f"CellMCD({c}): an unflagged cell was changed", X=X); req(np.array_equal(e.X_imputed[W == 0], e.predictions[W == 0]), f"CellMCD({c}): flagged cells do not hold the predictions", X=X)
    req(finite(e.X_imputed) and finite(e.location_) and finite(e.covariance_), f"CellMCD({c}): not finite", X=X)
    S = e.covariance_ / np.outer(*[RobustScaler(scale_estimator=OneStepWrapping()).fit(X, ignore_nan=True).scales_] * 2); req(np.linalg.eigvalsh((S + S.T) / 2).min() >= e.min_eigenvalue * (1 - 1e-6), f"CellMCD({c}): eigenvalue below the minimum", X=X)

@case("C20", quick=60, tmo=120)
def objective_values(rng, k):
    c = {q: v for q, v in CFG[k % (len(CFG) - 1)].items()}; X = data(rng, k // 4); O = []; prev = None; e = CellMCD(**c); fitc(lambda: e, X); s, Z, init, a, h, q = setup(e, X); D = s.scales_
    W = (~np.isnan(Z)).astype(float); m, S = init.location_, init.covariance_; O.append(objective(Z, W, m, S) + np.sum(q * (1 - W).sum(axis=0)))
    for steps in (1, 2, 3, 5, 100):
        f = CellMCD(**c, max_c_steps=steps).fit(X); m = (f.location_ - s.locations_) / D; S = f.covariance_ / np.outer(D, D); req((np.isfinite(Z) | (f.W == 0)).all(), f"CellMCD({c}): an excluded cell is not flagged", X=X)
        O.append(objective(Z, f.W, m, S) + np.sum(q * (1 - f.W).sum(axis=0)))
    for i in range(1, len(O)): req(O[i] <= O[i - 1] + 1e-7 * abs(O[i - 1]) + 1e-7, f"CellMCD({c}): the objective increases with more C-steps", objectives=np.array(O), X=X)

@case("C20", quick=60, tmo=120)
def iterations(rng, k):
    """location, scatter and flags come from one and the same iteration of C-steps"""
    c = {q: v for q, v in CFG[k % (len(CFG) - 1)].items()}; X = data(rng, k // 3); M = [1, 2, 4, 100][k // 2 % 4]; e = CellMCD(**c, max_c_steps=M); fitc(lambda: e, X); s, Z, init, a, h, q = setup(e, X); D = s.scales_
    W = (~np.isnan(Z)).astype(float); m, S = init.location_, init.covariance_; O = objective(Z, W, m, S) + np.sum(q * (1 - W).sum(axis=0)); gap = np.inf; crit = 1; step = 0
    while crit > e.crit and step < M:
        W1, g = update(Z, W, m, S, q, h); gap = min(gap, g); m1, S1 = em(Z, W1, m, S); crit = np.abs(S1 - S).max(); S1 = truncated_covariance(S1, e.min_eigenvalue)
        gap = min(gap, abs(crit / e.crit - 1)); O1 = objective(Z, W1, m1, S1) + np.sum(q * (1 - W1).sum(axis=0)); gap = min(gap, abs(O1 - O) / abs(O) * 1e3)
        if O1 > O: break
        W, m, S, O = W1, m1, S1, O1; step += 1
    if gap < 1e-7 or c.get("crit"): raise Skip()
    req(np.array_equal(e.W, W), f"CellMCD({c},max_c_steps={M}): flags", X=X, n_differing=np.sum(e.W != W)); sd = np.sqrt(np.diag(S))
    eq((e.location_ - s.locations_) / D, m, f"CellMCD({c},max_c_steps={M}): location", atol=1e-6, X=X); eq(e.covariance_ / np.outer(D, D), S, f"CellMCD({c},max_c_steps={M}): scatter", rtol=1e-6, X=X)

@case("C20", quick=24, tmo=60)
def many_marginal(rng, k):
    """a column with too many marginal outliers is refused, or h cells remain; whatever the quantile"""
    n = 60; q = [.99, .9999, .95, .999][k % 4]; X = rng.normal(size=(n, 3)); X[:, 1] += X[:, 0]; m = int(rng.integers(4, 12)); x = X[:, 0]; z = rng.choice([2.8, 3.1, 3.3, 4.5])
    for _ in range(30): s = OneStepWrapping().fit(x); x[:m] = s.location + z * s.scale
    try: e = CellMCD(alpha=.9, quantile=q).fit(X)
    except ValueError: return "refused"
    req((e.W.sum(axis=0) >= 54).all() and finite(e.covariance_) and finite(e.location_), f"CellMCD(alpha=.9, quantile={q}) with {m} cells at {z}", kept=e.W.sum(axis=0))

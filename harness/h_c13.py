from lib import *
from scipy.stats import chi2, gamma
from robpy.covariance import FastMCD, DetMCD

def dist2(X, m, S): c = X - m; return np.sum(c @ np.linalg.inv(S) * c, axis=1)
def make(k, rng, **kw):
    if k % 3 == 2: return DetMCD(**kw)
    return FastMCD(random_seed=int(rng.integers(1000)), n_initial_subsets=[20, 60][k % 2], n_best_subsets=[3, 10][k % 2], **kw)

@case("C13", quick=160, tmo=60)
def raw(rng, k):
    X = matrix(rng, nmin=18, nmax=60, pmax=4); n, p = X.shape; part = {}
    if k % 40 == 0: X = matrix(rng, n=[620, 1010][k // 40 % 2], p=2); n, p = X.shape
    a = [None, .5, .75, .9, int(.7 * n), float(rng.uniform(.5, .99))][k % 6]
    if k % 3 != 2 and k % 5 == 0: part = dict(n_partitions=2)
    tol = [1e-8, 1e-4][k // 6 % 2]; e = make(k, rng, alpha=a, tolerance=tol, **part); nm = type(e).__name__; seen = []
    f = getattr(e, "_perform_c_step", None)
    if f is not None:
        def rec(subset, Y, *A, **K):
            r = f(subset, Y, *A, **K)
            if len(Y) == n: seen.append(r)
            return r
        e._perform_c_step = rec
    e.fit(X); h = max(a if isinstance(a, int) else int(a * n) if a else 0, (n + p + 1) // 2); b = e.best_subset
    i = np.asarray(b.indices); req(len(i) == h and len(set(i.tolist())) == h, f"{nm}: h-subset size", got=len(i), h=h)
    eq(b.location, X[i].mean(axis=0), f"{nm}: raw location is not the mean of the h-subset", rtol=1e-9); eq(b.scale, np.cov(X[i].T), f"{nm}: raw scatter is not the covariance of the h-subset", rtol=1e-9)
    d = np.linalg.det(np.cov(X[i].T)); eq(b.determinant, d, f"{nm}: determinant", rtol=1e-7)
    j = np.argsort(dist2(X, b.location, b.scale))[:h]; d2 = np.linalg.det(np.cov(X[j].T))
    req(d2 >= d - tol * (1 + 1e-6) - 1e-9 * d, f"{nm}: a further C-step improves the determinant by more than the tolerance", det=d, after=d2, tol=tol, X=X)
    for s in seen:
        q = np.linalg.det(np.cov(X[np.asarray(s.indices)].T))
        req(q >= d - tol * (1 + 1e-6) - 1e-9 * d, f"{nm}: another refined candidate has a smaller determinant", reported=d, other=q, X=X)

@case("C13", quick=160, tmo=60)
def final(rng, k):
    X = matrix(rng, nmin=20, nmax=60, pmax=4); n, p = X.shape; cc, rw = [(True, True), (True, False), (False, True), (False, False)][k // 3 % 4]
    if k % 50 == 49: X = matrix(rng, n=1005, p=2); n, p = X.shape
    e = make(k, rng, alpha=[None, .75, .6][k % 3], correct_covariance=cc, reweighting=rw).fit(X); nm = f"{type(e).__name__}(correct={cc}, reweighting={rw})"; b = e.best_subset
    S = np.array(b.scale); m = b.location
    if cc: S = S * np.median(dist2(X, m, S)) / chi2.ppf(.5, p)
    if rw:
        d = dist2(X, m, S); cut = chi2.ppf(.975, p)
        if np.min(np.abs(d / cut - 1)) < 1e-9: raise Skip()
        i = d < cut; m = X[i].mean(axis=0); S = np.cov(X[i].T)
        if cc: S = S * .975 / gamma.cdf(cut / 2, p / 2 + 1)
    eq(e.location_, m, f"{nm}: location", rtol=1e-8, X=X); eq(e.covariance_, S, f"{nm}: covariance", rtol=1e-8, X=X)

@case("C13", quick=30)
def classical(rng, k):
    X = matrix(rng, nmin=15); n = len(X); a = [1, 1.0, n][k % 3]
    e = make(k // 3, rng, alpha=a).fit(X); eq(e.location_, X.mean(axis=0), f"{type(e).__name__} alpha={a}: mean", rtol=1e-12); eq(e.covariance_, np.cov(X.T), f"{type(e).__name__} alpha={a}: covariance", rtol=1e-12)

@case("C13", quick=30, tmo=60)
def median_observation(rng, k):
    n = int(2 * rng.integers(8, 20) + 1); X = rng.normal(size=(n, 2)); X = X - np.median(X, axis=0); i = int(np.argmin(np.abs(X[:, 0]))); j = int(np.argmin(np.abs(X[:, 1]))); X[[i, j], 1] = X[[j, i], 1]
    e = DetMCD().fit(X); req(finite(e.covariance_) and finite(e.location_), "DetMCD with an observation at the coordinatewise median", X=X)

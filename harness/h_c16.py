from multi import *
from scipy.stats import kendalltau
from robpy.covariance.utils.alter_covariance import truncated_covariance, covariance_to_correlation

@case("C16", quick=216, tmo=60)
def fitted(rng, k):
    name, mk = COV[k % len(COV)]; X = cdata(rng, name, nan=k // 18 % 2 == 1); e = fitc(mk, X); S = e.covariance_; t = np.abs(S).max()
    req(S.shape == (X.shape[1],) * 2 and finite(S), f"{name}: shape/finite", S=S)
    req(np.abs(S - S.T).max() <= 1e-10 * t, f"{name}: not symmetric", S=S, X=X)
    if name != "KendallTau":
        d = np.sqrt(np.diag(S)); R = S / np.outer(d, d); req(np.linalg.eigvalsh((R + R.T) / 2).min() >= -1e-8, f"{name}: not positive semidefinite", S=S, X=X)
    if hasattr(e, "correlation_"):
        R = e.correlation; eq(np.diag(R), np.ones(len(R)), f"{name}: correlation diagonal", rtol=1e-10); d = np.sqrt(np.diag(S)); eq(R, S / np.outer(d, d), f"{name}: correlation is not the scaled covariance", rtol=1e-9, X=X)
    if name == "KendallTau":
        q = np.array([Qn().fit(c).scale for c in X.T]); eq(np.diag(S), q ** 2, "Kendall variances are not the squared robust scales", rtol=1e-10, X=X)
        for i in range(len(q)):
            for j in range(i): eq(e.correlation_[i, j], kendalltau(X[:, i], X[:, j]).statistic, f"Kendall correlation {i},{j}", rtol=1e-10); eq(S[i, j], e.correlation_[i, j] * q[i] * q[j], f"Kendall covariance {i},{j}", rtol=1e-10)

@case("C16", quick=400)
def truncation(rng, k):
    p = int(rng.integers(1, 6)); Q = np.linalg.qr(rng.normal(size=(p, p)))[0]; w = [rng.normal(size=p), rng.exponential(size=p), np.array([0.] * (p - 1) + [2.])][k % 3] * 10.0 ** rng.integers(-3, 3)
    S = (Q * w) @ Q.T; S = (S + S.T) / 2; m = [1e-4, .5, 10., 1e-8, float(np.abs(w).min())][k % 5]; S0 = S.copy(); T = truncated_covariance(S, m); t = max(np.abs(S).max(), m)
    req(np.array_equal(S, S0), "truncated_covariance changed its argument")
    req(np.abs(T - T.T).max() <= 1e-10 * t, "truncation: not symmetric", S=S, m=m); req(np.linalg.eigvalsh((T + T.T) / 2).min() >= m - 1e-10 * t, "truncation: an eigenvalue is below the minimum", S=S, m=m, T=T)
    ew, V = np.linalg.eigh(S); eq(T, (V * np.maximum(ew, m)) @ V.T, "truncation changes more than the small eigenvalues", rtol=1e-9, S=S, m=m)
    if ew.min() > m: eq(T, S, "truncation changes a matrix without small eigenvalues", rtol=1e-9)
    if (w > 0).all():
        C = S + np.eye(p) * 1e-3; C0 = C.copy(); R = covariance_to_correlation(C); d = np.sqrt(np.diag(C)); eq(np.diag(R), np.ones(p), "correlation: unit diagonal", rtol=1e-12); eq(R, C / np.outer(d, d), "correlation", rtol=1e-12); req(np.array_equal(R, R.T), "correlation: symmetric"); req(np.array_equal(C, C0), "covariance_to_correlation changed its argument")
        u = 10. ** rng.uniform(-9, 9, size=p); eq(covariance_to_correlation(C * np.outer(u, u)), R, "correlation of variables in other units", rtol=1e-9, C=C, u=u)

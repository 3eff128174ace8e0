from multi import *
from robpy.utils.distance import mahalanobis_distance
def dist(X, m, S):
    C = X - m; q = np.sum(C * np.linalg.solve(S, C.T).T, axis=1); return np.where(q < 0, np.nan, np.sqrt(np.abs(q)))

@case("C15", quick=180, tmo=60)
def fitted(rng, k):
    name, mk = COV[k % len(COV)]; X = cdata(rng, name, nan=k // 18 % 3 == 2); 
    if k // 18 % 4 == 1 and name.startswith(("OGK", "Wrapping", "FastMCD")):
        base = mk; mk = lambda: base().set_params(assume_centered=True); name += "+assume_centered"
    if k // 18 % 4 == 3 and hasattr(mk(), "store_precision"): base2 = mk; mk = lambda: base2().set_params() ; 
    e = fitc(mk, X); S = e.covariance_
    if np.linalg.cond(S) > 1e8: raise Skip()
    P = e.precision_ if e.store_precision else e.get_precision()
    w, V = np.linalg.eigh(S); eq(P, V @ np.diag(1 / w) @ V.T, f"{name}: precision is not the inverse of the covariance", rtol=1e-6, X=X)
    eq(e._robust_distances, dist(X, e.location_, S), f"{name}: robust distances", rtol=1e-6, X=X)
    D = np.cov(X, rowvar=False); eq(e.default_covariance_, D, f"{name}: sample covariance", rtol=1e-10)
    if np.isfinite(D).all(): eq(e._mahalanobis_distances, dist(X, e.location_, D), f"{name}: classical distances", rtol=1e-6, X=X)
    eq(e.covariance, S, f"{name}: covariance property", rtol=0)
    if k % 3 == 0:
        import matplotlib.pyplot as plt
        f = e.distance_distance_plot(); o = np.asarray(f.axes[0].collections[0].get_offsets()); plt.close("all")
        if np.isfinite(o).all(): eq(o, np.column_stack([e._mahalanobis_distances, e._robust_distances]), f"{name}: plotted distances", rtol=1e-12)

@case("C15", quick=20)
def singular_precision(rng, k):
    n = 40; X = rng.normal(size=(n, 3)); X[:, 2] = X[:, 0] + X[:, 1]     # pseudo-inverse, no distances defined
    from scipy.linalg import pinvh
    e = KendallTau() if k % 2 else WrappingCovariance()
    try: e.fit(X)
    except np.linalg.LinAlgError: raise Skip()
    eq(e.precision_, pinvh(e.covariance_), "pseudo-inverse of the covariance", rtol=1e-6)

@case("C15", quick=300)
def distance(rng, k):
    p = int(rng.integers(1, 6)); n = int(rng.integers(1, 30)); X = rng.normal(size=(n, p)) * 10.0 ** rng.integers(-2, 3); m = rng.normal(size=p)
    A = rng.normal(size=(p, p)) + 2 * np.eye(p); S = A @ A.T
    if np.linalg.cond(S) > 1e5: raise Skip()
    d = mahalanobis_distance(X, m, S); eq(d, dist(X, m, S), "mahalanobis_distance", rtol=1e-8, X=X, m=m, S=S); req(np.shape(d) == (n,), "shape", got=np.shape(d))
    eq(mahalanobis_distance(X, m.reshape(1, -1), S), d, "location given as a row", rtol=1e-14); eq(mahalanobis_distance(pd.DataFrame(X, index=range(7, 7 + n)), m, S), d, "data frame", rtol=1e-14)
    u = 10. ** rng.uniform(-9, 9); eq(mahalanobis_distance(X * u, m * u, S * u * u), d, "distances in other units", rtol=1e-8, X=X, m=m, S=S, u=u)
    req(mahalanobis_distance(m.reshape(1, -1), m, S)[0] == 0, "distance of the center to itself")
    B = rng.normal(size=(p, p)) + 2 * np.eye(p); b = rng.normal(size=p) * 5
    if np.linalg.cond(B) > 1e3: raise Skip()
    eq(mahalanobis_distance(X @ B.T + b, B @ m + b, B @ S @ B.T), d, "affine invariance", rtol=1e-6, X=X, m=m, S=S, B=B)
    i = int(rng.integers(n)); eq(mahalanobis_distance(X[[i]], m, S)[0], d[i], "each row on its own", rtol=1e-10)

from multi import *
from scipy.stats import chi2, norm
from robpy.pca import get_od_cutoff
from robpy.univariate import UnivariateMCD
import matplotlib.pyplot as plt

@case("C22", quick=140, tmo=60)
def fitted(rng, k):
    name, mk = PCA[k % len(PCA)]; X = pdata(rng); n, p = X.shape
    if k // 7 % 5 == 4: X[:, -1] = X[:, 0] - 2 * X[:, 1]          # rank deficient
    if k // 7 % 5 == 3: X = X[:, :2]; p = 2
    e = mk().fit(X); C = e.components_; q = C.shape[1]; t = np.abs(X).max(); m = e.location_
    req(C.shape == (p, q) and 1 <= q <= p and e.n_components == q, f"{name}: number of components", shape=C.shape, k=e.n_components); eq(C.T @ C, np.eye(q), f"{name}: components are not orthonormal", atol=1e-8, X=X)
    T = e.transform(X); eq(T, (X - m) @ C, f"{name}: scores", rtol=1e-10, atol=1e-10 * t); P = e.project(X); eq(P, (X - m) @ C @ C.T, f"{name}: projection", rtol=1e-9, atol=1e-9 * t); eq(e.project(P + m), P, f"{name}: projecting twice", atol=1e-8 * t, X=X)
    R = (X - m) - P; eq(R @ C, np.zeros((n, q)), f"{name}: residuals are not orthogonal to the components", atol=1e-7 * t); eq(e.transform(P + m), T, f"{name}: scores of the projection", atol=1e-8 * t)
    v = np.asarray(e.explained_variance_); req(v.shape == (q,) and (v >= -1e-10 * max(v.max(), 1e-300)).all(), f"{name}: explained variances", v=v)
    if name.startswith("PCAL"): eq(v, np.square(median_abs_deviation(T, axis=0, scale="normal")), f"{name}: explained variance of each component is the squared MAD of its scores", rtol=1e-8, atol=1e-10 * v.max())
    else: req((np.diff(v) <= 1e-9 * v.max()).all(), f"{name}: explained variances are not in the order of their components", v=v)
    N = rng.normal(size=(7, p)) * t; eq(e.transform(N), (N - m) @ C, f"{name}: scores of new data", atol=1e-9 * t); eq(e.project(N), (N - m) @ C @ C.T, f"{name}: projection of new data", atol=1e-9 * t)
    if k % 2 == 0 and (v > 1e-8 * v.max()).all():
        if k // 7 % 5 == 3 and q == p: raise Skip()
        Y = X if k % 4 else N; od0 = np.linalg.norm((Y - m) - (Y - m) @ C @ C.T, axis=1)
        if od0.max() < 1e-6 * t: raise Skip()
        sd, od, cs, co = e.plot_outlier_map(Y, return_distances=True); off = np.asarray(plt.gcf().axes[0].collections[0].get_offsets()); plt.close("all")
        eq(sd, np.sqrt(np.sum(((Y - m) @ C) ** 2 / v, axis=1)), f"{name}: score distances", rtol=1e-8, X=X); eq(od, od0, f"{name}: orthogonal distances", rtol=1e-8, atol=1e-8 * t, X=X)
        eq(cs, np.sqrt(chi2.ppf(.975, q)), f"{name}: score cutoff", rtol=1e-10); eq(off, np.column_stack([sd, od]), f"{name}: plotted distances", rtol=1e-12)
        u = UnivariateMCD().fit(od0 ** (2 / 3)); eq(co, (u.location + u.scale * norm.ppf(.975)) ** 1.5, f"{name}: orthogonal cutoff", rtol=1e-6)

@case("C22", quick=60, tmo=60)
def plane(rng, k):
    """data in a plane plus small noise: the components span the plane, the first is the direction of largest spread"""
    name, mk = [("ROBPCA", lambda: ROBPCA(n_components=2, random_seed=3)), ("ROBPCA(no MCD)", lambda: ROBPCA(n_components=2, random_seed=3, final_MCD_step=False)), ("PCALocantore", lambda: PCALocantore(n_components=2))][k % 3]
    p = int(rng.integers(3, 6)); n = int(rng.integers(60, 100)); Q = np.linalg.qr(rng.normal(size=(p, p)))[0]; T = rng.normal(size=(n, 2)) * [20., 4.]; X = T @ Q[:, :2].T + 1e-3 * rng.normal(size=(n, p)); X[: n // 12] += 80 * Q[:, 2]; X = X + rng.normal(size=p) * 3
    e = mk().fit(X); C = e.components_
    if name == "PCALocantore": req(np.linalg.norm(Q[:, 0] @ C) > .97, f"{name}: main direction lost", X=X); return
    eq(C @ C.T, Q[:, :2] @ Q[:, :2].T, f"{name}: the plane of the data is not found", atol=1e-2, X=X); req(abs(Q[:, 0] @ C[:, 0]) > .9, f"{name}: first component is not the direction of largest spread", X=X)
    req(.3 < e.explained_variance_[1] / 16 < 3 and .3 < e.explained_variance_[0] / 400 < 3, f"{name}: explained variances do not belong to their components", v=e.explained_variance_, X=X)

@case("C22", quick=40)
def center_observation(rng, k):
    p = 3; Y = rng.normal(size=(15, p)) * [5., 2, 1]; X = np.vstack([Y, -Y, np.zeros((1, p))]); e = PCALocantore(n_components=2).fit(X); req(finite(e.components_) and finite(e.transform(X)), "PCALocantore with an observation at the center", X=X); eq(e.components_.T @ e.components_, np.eye(2), "orthonormal", atol=1e-9)

@case("C22", quick=60)
def cutoff(rng, k):
    d = np.abs(rng.normal(size=int(rng.integers(10, 60)))) * 10.0 ** rng.integers(-2, 3); u = UnivariateMCD().fit(d ** (2 / 3)); eq(get_od_cutoff(d), (u.location + u.scale * norm.ppf(.975)) ** 1.5, "get_od_cutoff", rtol=1e-9, d=d)

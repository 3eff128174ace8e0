from multi import *
import reg, matplotlib.pyplot as plt
from uni import CONF
from robpy.regression import FastLTSRegression, MMRegression, SRegression
from robpy.preprocessing import RobustPowerTransformer, RobustScaler
from robpy.preprocessing.utils import wrapping_transformation
from robpy.utils.distance import mahalanobis_distance
from robpy.univariate.adjusted_boxplot import adjusted_boxplot
from robpy.utils.outlyingness import stahel_donoho
from robpy.utils.median import l1median

def frame(rng, X):
    n, p = X.shape; return pd.DataFrame(X, index=rng.permutation(n) + rng.choice([0, 5]), columns=rng.permutation([f"c{j}" for j in range(p)]) if rng.random() < .7 else rng.permutation(p))
def ints(rng, X): return np.round(X * 20 / np.nanstd(X, axis=0)).astype(int)
def arr(v): return np.asarray(v, dtype=float)

@case("C27", quick=140)
def univariate(rng, k):
    nm, mk = CONF[k % len(CONF)]; n = int(rng.integers(8, 40)); x = generic(rng, n=n); a = mk().fit(x); s = pd.Series(x, index=rng.permutation(n), name="v"); b = mk().fit(s); eq((b.location, b.scale), (a.location, a.scale), f"{nm}: series", rtol=1e-12, x=x)
    i = rng.integers(-30, 100, size=n); a = mk().fit(i); b = mk().fit(i.astype(float)); eq((a.location, a.scale), (b.location, b.scale), f"{nm}: integers", rtol=1e-12, x=i)
    i = (rng.integers(0, 250, size=n) * (1 if k // 14 % 4 else .5)).astype([np.int8, np.uint8, np.uint32, np.int16][k // 14 % 4]); a = mk().fit(i); b = mk().fit(i.astype(float)); eq((a.location, a.scale), (b.location, b.scale), f"{nm}: integers of type {i.dtype}", rtol=1e-12, x=i)

@case("C27", quick=100)
def scaler(rng, k):
    nm, mk = CONF[k % len(CONF)]; n, p = int(rng.integers(8, 30)), int(rng.integers(1, 4)); X = np.column_stack([generic(rng, n=n) for _ in range(p)])
    if k % 3 == 0: X[2, 0] = np.nan
    D = frame(rng, X); a = RobustScaler(mk()).fit(X, ignore_nan=True); b = RobustScaler(mk()).fit(D, ignore_nan=True); eq((b.locations_, b.scales_), (a.locations_, a.scales_), f"RobustScaler({nm}): frame", rtol=1e-12)
    Z = a.transform(X); eq(arr(a.transform(D)), Z, "transform of a frame", rtol=1e-12); eq(arr(b.transform(X)), Z, "transform", rtol=1e-12); eq(arr(a.inverse_transform(pd.DataFrame(Z, index=D.index, columns=D.columns))), arr(a.inverse_transform(Z)), "inverse transform of a frame", rtol=1e-12)
    I = rng.integers(-20, 60, size=(n, p)); c = RobustScaler(mk()).fit(I); d = RobustScaler(mk()).fit(I.astype(float)); eq((c.locations_, c.scales_), (d.locations_, d.scales_), f"RobustScaler({nm}): integers", rtol=1e-12, X=I)
    if (d.scales_ > 0).all(): eq(arr(c.transform(I)), arr(d.transform(I.astype(float))), "transform of integers", rtol=1e-12); eq(arr(c.inverse_transform(I)), arr(d.inverse_transform(I.astype(float))), "inverse transform of integers", rtol=1e-12)

@case("C27", quick=40, tmo=60)
def power(rng, k):
    n = 30; i = rng.integers(1, 200, size=n); i[:3] *= 9; kw = [dict(method="yeojohnson"), dict(method="boxcox"), dict(method="auto"), dict(method="yeojohnson", standardize=False)][k % 4]
    if k % 4 in (0, 3) and k % 3: i = i - 60
    a = RobustPowerTransformer(**kw).fit(i); b = RobustPowerTransformer(**kw).fit(i.astype(float)); eq(a.lambda_rew, b.lambda_rew, f"{kw}: lambda of integers", rtol=1e-9, x=i); eq(a.transform(i), b.transform(i.astype(float)), f"{kw}: transform of integers", rtol=1e-9, x=i); j = np.array([0, 1, 2, -1]); eq(a.inverse_transform(j), b.inverse_transform(j.astype(float)), f"{kw}: inverse transform of integers", rtol=1e-9)
    if (i > 0).all():
        q = (i % 200 + 1).astype(np.uint8); c = RobustPowerTransformer(**kw).fit(q); d = RobustPowerTransformer(**kw).fit(q.astype(float)); eq(c.lambda_rew, d.lambda_rew, f"{kw}: lambda of unsigned integers", rtol=1e-9, x=q); eq(c.transform(q), d.transform(q.astype(float)), f"{kw}: transform of unsigned integers", rtol=1e-9, x=q)
    s = pd.Series(i.astype(float), index=rng.permutation(n)); eq(arr(b.transform(s)), b.transform(s.values), f"{kw}: transform of a series", rtol=1e-12); c = RobustPowerTransformer(**kw).fit(s); eq(c.lambda_rew, b.lambda_rew, f"{kw}: fit on a series", rtol=1e-12)

@case("C27", quick=126, tmo=60)
def covariance(rng, k):
    nm, mk = COV[k % len(COV)]; X = cdata(rng, nm, nan=k // 18 % 3 == 0); e = fitc(mk, X); same(cres(mk().fit(frame(rng, X))), cres(e), f"{nm}: data frame", rtol=1e-10, X=X)
    I = ints(rng, cdata(rng, nm))
    try: b = fitc(mk, I.astype(float))
    except (np.linalg.LinAlgError, ValueError): raise Skip()   # the rounded data are degenerate for this estimator
    a = fitc(mk, I); same(cres(a), cres(b), f"{nm}: integers", rtol=1e-9, X=I); same(cres(mk().fit(frame(rng, I))), cres(b), f"{nm}: integer data frame", rtol=1e-9, X=I)
    if k // 18 % 2:
        q = (np.abs(I) % 250).astype(np.uint8)
        try: b = fitc(mk, q.astype(float))
        except (np.linalg.LinAlgError, ValueError): b = None
        if b is not None: same(cres(fitc(mk, q)), cres(b), f"{nm}: unsigned integers", rtol=1e-9, X=q)
    m, S = e.location_, e.covariance_; eq(mahalanobis_distance(frame(rng, X), m, S), mahalanobis_distance(X, m, S), "mahalanobis_distance of a frame", rtol=1e-12); eq(mahalanobis_distance(ints(rng, np.nan_to_num(X)), m, S), mahalanobis_distance(ints(rng, np.nan_to_num(X)).astype(float), m, S), "mahalanobis_distance of integers", rtol=1e-12)

@case("C27", quick=49, tmo=60)
def pca(rng, k):
    nm, mk = PCA[k % len(PCA)]; X = pdata(rng); D = frame(rng, X); e = mk().fit(X)
    eq(arr(e.transform(D)), e.transform(X), f"{nm}: scores of a frame", rtol=1e-10); eq(arr(e.project(D)), e.project(X), f"{nm}: projection of a frame", rtol=1e-10)
    if e.n_components < X.shape[1]: a = e.plot_outlier_map(X, return_distances=True); b = e.plot_outlier_map(D, return_distances=True); plt.close("all"); [eq(v, u, f"{nm}: outlier map of a frame", rtol=1e-9) for u, v in zip(a, b)]
    I = ints(rng, pdata(rng)); same(pres(mk().fit(I), I), pres(mk().fit(I.astype(float)), I.astype(float)), f"{nm}: integers", rtol=1e-8, atol=1e-9, X=I)
    q = (np.abs(I) % 250).astype(np.uint8); same(pres(mk().fit(q), q), pres(mk().fit(q.astype(float)), q.astype(float)), f"{nm}: unsigned integers", rtol=1e-8, atol=1e-9, X=q)
    if nm.startswith("ROBPCA"): same(pres(mk().fit(D), X), pres(e, X), f"{nm}: fit on a frame", rtol=1e-10)

@case("C27", quick=32, tmo=60)
def ddc(rng, k):
    nm, mk = DDCS[k % len(DDCS)]; X = ddata(rng); v = X.values; Y = pd.DataFrame(v, columns=rng.permutation(X.columns)); a, b = mk().fit(X), mk().fit(Y); same(dres(b), dres(a), f"{nm}: other labels", rtol=1e-12); eq(b.impute(Y).values, a.impute(X).values, f"{nm}: imputation under other labels", rtol=1e-12)
    I = pd.DataFrame(ints(rng, ddata(rng, nan=False).values)); a = mk().fit(I); b = mk().fit(I.astype(float)); same(dres(a), dres(b), f"{nm}: integers", rtol=1e-12, X=I.values); eq(arr(a.impute(I)), arr(b.impute(I.astype(float))), f"{nm}: imputation of integers", rtol=1e-12)

@case("C27", quick=60, tmo=60)
def regression(rng, k):
    X, y = reg.data(rng); n = len(y); M = [("FastLTS", lambda: FastLTSRegression(n_initial_subsets=12)), ("FastLTS(.8,raw)", lambda: FastLTSRegression(alpha=.8, n_initial_subsets=12, reweighting=False)), ("MM", lambda: MMRegression(initial_estimator=SRegression(n_initial_subsets=15))), ("MM(LTS)", lambda: MMRegression(initial_estimator=FastLTSRegression(n_initial_subsets=12))), ("S", lambda: SRegression(n_initial_subsets=15))]; nm, mk = M[k % 5]; kw = {} if nm.startswith("MM") else dict(verbosity=50)
    def R(A, b, C): e = mk(); e.fit(A, b, **kw); return dict(p=arr(e.predict(C)).ravel(), s=arr(e.scale))
    r = R(X, y, X); D = frame(rng, X); s = pd.Series(y, index=rng.permutation(n), name="y")
    for a, b, c in ((D, s, D), (X, s, X), (D, y, X), (X, y, D)): same(R(a, b, c), r, f"{nm}: frames/series", rtol=1e-9, X=X, y=y)
    I = np.round(X * 20).astype(int); j = np.round(y * 20).astype(int); q = R(I.astype(float), j.astype(float), I.astype(float))
    try: same(R(I, j, I), q, f"{nm}: integers", rtol=1e-8, X=I, y=j)
    except np.linalg.LinAlgError: raise Skip()
    if X.shape[1] == 1 and nm != "S": same(R(X[:, 0], y, X[:, 0]), r, f"{nm}: one-dimensional X", rtol=1e-9)

@case("C27", quick=60)
def utilities(rng, k):
    X = matrix(rng); I = ints(rng, X); eq(wrapping_transformation(I), wrapping_transformation(I.astype(float)), "wrapping of integers", rtol=1e-12, X=I); eq(arr(wrapping_transformation(frame(rng, X))), wrapping_transformation(X), "wrapping of a frame", rtol=1e-12)
    eq(l1median(I), l1median(I.astype(float)), "l1median of integers", rtol=1e-10); Y = X * 50; J = np.round(Y).astype(int)
    if len(np.unique(J, axis=0)) == len(J): eq(stahel_donoho(J, random_seed=1, n_dir=20), stahel_donoho(J.astype(float), random_seed=1, n_dir=20), "outlyingness of integers", rtol=1e-10)
    t = lambda B: [(b.median, b.q1, b.q3, b.lower_whisker, b.upper_whisker) for b in B]; eq(t(adjusted_boxplot(I, plot=False)), t(adjusted_boxplot(I.astype(float), plot=False)), "boxplot of integers", rtol=1e-12, X=I)
    q = (np.abs(J) % 250).astype(np.uint8)
    if len(np.unique(q, axis=0)) == len(q) and X.shape[1] > 1: eq(stahel_donoho(q, random_seed=1, n_dir=20), stahel_donoho(q.astype(float), random_seed=1, n_dir=20), "outlyingness of unsigned integers", rtol=1e-10, X=q)
    eq(t(adjusted_boxplot(q, plot=False)), t(adjusted_boxplot(q.astype(float), plot=False)), "boxplot of unsigned integers", rtol=1e-12, X=q); eq(wrapping_transformation(q), wrapping_transformation(q.astype(float)), "wrapping of unsigned integers", rtol=1e-12, X=q); eq(l1median(q), l1median(q.astype(float)), "l1median of unsigned integers", rtol=1e-10)

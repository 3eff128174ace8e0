from multi import *
import reg, matplotlib.pyplot as plt, copy
from uni import CONF
from robpy.regression import FastLTSRegression, MMRegression, SRegression
from robpy.preprocessing import RobustPowerTransformer, RobustScaler, DataCleaner
from robpy.preprocessing.utils import wrapping_transformation
from robpy.utils.outlyingness import stahel_donoho
from robpy.utils.median import l1median, weighted_median
from robpy.utils.distance import mahalanobis_distance
from robpy.utils.rho import TukeyBisquare, Huber
from robpy.utils.general import inverse_submatrix
from robpy.covariance.utils.alter_covariance import truncated_covariance, covariance_to_correlation
from robpy.covariance.utils.cellmcd_utils import objective_function
from robpy.univariate.adjusted_boxplot import adjusted_boxplot
from robpy.pca import get_od_cutoff

def snap(v):
    if isinstance(v, pd.DataFrame): return ("df", v.to_numpy(copy=True).astype(object), list(v.index), list(v.columns), [str(t) for t in v.dtypes], list(v.index.names))
    if isinstance(v, pd.Series): return ("s", v.to_numpy(copy=True).astype(object), list(v.index), v.name, str(v.dtype))
    if isinstance(v, np.ndarray): return ("a", v.astype(object).copy() if v.dtype == object else v.copy(), str(v.dtype), v.shape)
    return ("o", copy.deepcopy(v))
def eqs(a, b):
    if a[0] != b[0] or len(a) != len(b): return False
    for x, y in zip(a, b):
        if isinstance(x, np.ndarray):
            if x.shape != y.shape: return False
            if x.dtype == object:
                if not all((p == q) or (isinstance(p, float) and isinstance(q, float) and np.isnan(p) and np.isnan(q)) for p, q in zip(x.ravel(), y.ravel())): return False
            elif not np.array_equal(x, y, equal_nan=x.dtype.kind == "f"): return False
        elif x != y: return False
    return True
def run(nm, f, *args, soft=False):
    """call f(*args): the caller's arguments are as before"""
    s = [snap(a) for a in args]
    try: r = f(*args)
    except ValueError:
        if not soft: raise
        r = None
    for i, (a, b) in enumerate(zip(args, s)): req(eqs(snap(a), b), f"{nm} changes argument {i} of the caller", before=b[1], after=a if isinstance(a, np.ndarray) else getattr(a, "values", a))
    plt.close("all"); return r
def unreached(nm, out, X, get=None):
    """writing into the result does not reach the caller's data"""
    s = snap(X); v = out.to_numpy() if isinstance(out, (pd.DataFrame, pd.Series)) else np.asarray(out)
    if isinstance(X, np.ndarray): req(not np.shares_memory(v, X), f"{nm} shares memory with the caller's data")
    if isinstance(out, pd.DataFrame) and out.size:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for j in range(out.shape[1]):
                if out.dtypes.iloc[j].kind == "f": out.iloc[:, j] = 12345.0; w = out.iloc[:, j].values; (w.flags.writeable and w.__setitem__(0, 54321.0))
    elif isinstance(out, np.ndarray) and out.flags.writeable and out.size: out[...] = 12345
    req(eqs(snap(X), s), f"writing into the result of {nm} changes the caller's data")

@case("C25", quick=100)
def univariate(rng, k):
    nm, mk = CONF[k % len(CONF)]; x = [generic(rng), rng.integers(-9, 9, size=20), np.round(generic(rng))][k % 3]
    run(f"{nm}.fit", lambda x: mk().fit(x), x); x = generic(rng); x[2] = np.nan; run(f"{nm}.fit(ignore_nan)", lambda x: mk().fit(x, ignore_nan=True), x); run(f"{nm}.fit(nan)", lambda x: mk().fit(x), x, soft=True)
    b = rng.normal(size=(60, 2))[::2, 0]; run(f"{nm}.fit(strided)", lambda x: mk().fit(x), b)
    X = rng.normal(size=(25, 3)); 
    if k % 2: X[3, 1] = np.nan
    for Y in (X, pd.DataFrame(X, index=range(5, 30)), np.asfortranarray(X)):
        s = RobustScaler(mk()); run("RobustScaler.fit", lambda Y: s.fit(Y, ignore_nan=True), Y); t = run("RobustScaler.transform", s.transform, Y); unreached("RobustScaler.transform", t, Y); run("RobustScaler.inverse_transform", s.inverse_transform, Y); t = run("RobustScaler.fit_transform", lambda Y: RobustScaler(mk(), with_centering=False, with_scaling=k % 3 == 0).fit(Y, ignore_nan=True).transform(Y), Y); unreached("RobustScaler.transform", t, Y)

@case("C25", quick=40, tmo=60)
def power(rng, k):
    x = [np.exp(rng.normal(size=25)), rng.normal(size=25), np.abs(rng.integers(1, 40, size=25)), np.sort(np.exp(rng.normal(size=25)))][k % 4]; kw = [dict(method="auto"), dict(method="yeojohnson"), dict(method="yeojohnson", standardize=False), dict(method="boxcox" if k % 4 != 1 else "auto", standardize=False)][k // 4 % 4]
    t = RobustPowerTransformer(**kw); run("RobustPowerTransformer.fit", t.fit, x); y = run("RobustPowerTransformer.transform", t.transform, x); z = run("RobustPowerTransformer.inverse_transform", t.inverse_transform, y); w = np.array([-50., 0, 50, .2, 3]); run("inverse_transform(out of range)", t.inverse_transform, w); y2 = y.copy() * 5; run("inverse_transform", t.inverse_transform, y2)
    R = [TukeyBisquare(c=2.), Huber(b=1.)][k % 2]; v = rng.normal(size=20) * 3; run("rho", R.rho, v); run("psi", R.psi, v)

@case("C25", quick=60, tmo=60)
def cleaner(rng, k):
    n = 30; X = pd.DataFrame({"a": rng.normal(size=n), "b": rng.normal(size=n), "c": rng.choice([1., 2.], size=n), "n": np.arange(n), "i": rng.integers(0, 100, size=n), "t": ["x", "y"] * 15}, index=rng.permutation(n)); X.iloc[3, 0] = np.inf; X.iloc[4, 0:2] = np.nan; X.iloc[5, 1] = -np.inf
    if k % 2: X = X[["a", "b"]].copy()
    if k % 4 == 3: X = X.abs().fillna(1.).replace(np.inf, 2.)
    d = DataCleaner(**[{}, dict(max_missing_frac_rows=.2), dict(clean_na_first="rows")][k % 3]); run("DataCleaner.fit", d.fit, X); o = run("DataCleaner.transform", d.transform, X); s = snap(X); unreached("DataCleaner.transform", o, X)

@case("C25", quick=90, tmo=60)
def covariance(rng, k):
    nm, mk = COV[k % len(COV)]; X = cdata(rng, nm, nan=k // 18 % 2 == 0)
    if nm.startswith(("CellMCD", "InitialDDCW")) and k % 3 == 0: X = np.round(X * 10) if np.isnan(X).any() else np.round(X * 100).astype(int)
    Y = [X, pd.DataFrame(X, index=rng.permutation(len(X))), np.asfortranarray(X)][k // 18 % 3]
    e = run(f"{nm}.fit", lambda Y: mk().fit(Y), Y, soft=True)
    if e is None: raise Skip()
    run(f"{nm}.distance_distance_plot", lambda Y: e.distance_distance_plot(), Y)
    run(f"{nm}.calculate_covariance", lambda Y: mk().calculate_covariance(Y), np.array(X, dtype=float), soft=True) if not nm.startswith("FastMCD") else None
    if nm.startswith("CellMCD"):
        for t in ("indexplot", "residuals_vs_variable", "residuals_vs_predictions", "variable_vs_predictions", "bivariate"): run(f"CellMCD.cell_MCD_plot({t})", lambda Y: e.cell_MCD_plot(0, second_variable=1, plottype=t, row_names=list(range(len(X))), annotation_quantile=.9), Y)
        unreached("CellMCD.X_imputed", e.X_imputed, Y); unreached("CellMCD.predictions", e.predictions, Y)

@case("C25", quick=42, tmo=60)
def pca(rng, k):
    nm, mk = PCA[k % len(PCA)]; X = pdata(rng); X = np.asfortranarray(X) if k % 2 else X; e = run(f"{nm}.fit", lambda X: mk().fit(X), X); t = run(f"{nm}.transform", e.transform, X); unreached(f"{nm}.transform", t, X); p = run(f"{nm}.project", e.project, X); unreached(f"{nm}.project", p, X)
    if e.n_components < X.shape[1]: run(f"{nm}.plot_outlier_map", lambda X: e.plot_outlier_map(X, return_distances=True), X); run(f"{nm}.plot_outlier_map(frame)", lambda X: e.plot_outlier_map(X, return_distances=True), pd.DataFrame(X))
    Z = X.copy(); e2 = mk().fit(Z); r = pres(e2, X); Z[...] = 7; same(pres(e2, X), r, f"{nm}: changing the data after fit changes the fit", rtol=0)

@case("C25", quick=32, tmo=60)
def ddc(rng, k):
    nm, mk = DDCS[k % len(DDCS)]; X = ddata(rng, nan=k % 4 != 3)
    if k % 3 == 2: X = pd.DataFrame(np.nan_to_num(X.values, posinf=9, neginf=-9).round(1), columns=X.columns, index=X.index); X["int"] = rng.integers(0, 50, size=len(X))
    d = mk(); run("DDC.fit", d.fit, X); F, R = run("DDC.predict", d.predict, X); run("DDC.predict(rowwise)", lambda X: d.predict(X, rowwise=True), X); run("DDC.cellmap", lambda X: d.cellmap(X, annotate=True), X); run("DDC.cellmap(residuals)", lambda X, R: d.cellmap(X, R, row_zoom=(0, 5), col_zoom=(0, 2)), X, R)
    for o in (True, False): I = run("DDC.impute", lambda X: d.impute(X, impute_outliers=o), X); unreached("DDC.impute", I, X)

@case("C25", quick=48, tmo=60)
def regression(rng, k):
    X, y = reg.data(rng, pmax=3); yy = [y, y.reshape(-1, 1), pd.Series(y, index=rng.permutation(len(y))), y][k // 6 % 4]; XX = [X, pd.DataFrame(X), np.asfortranarray(X), np.round(X * 5).astype(int)][k // 6 % 4]
    M = [("FastLTS", lambda: FastLTSRegression(n_initial_subsets=8)), ("FastLTS(raw)", lambda: FastLTSRegression(n_initial_subsets=8, reweighting=False)), ("MM", lambda: MMRegression(initial_estimator=SRegression(n_initial_subsets=10))), ("MM(LTS)", lambda: MMRegression(initial_estimator=FastLTSRegression(n_initial_subsets=8))), ("S", lambda: SRegression(n_initial_subsets=10)), ("S(no intercept)", lambda: SRegression(n_initial_subsets=10, fit_intercept=False))]; nm, mk = M[k % 6]; kw = {} if nm.startswith("MM") else dict(verbosity=50)
    if "S" in nm and not nm.startswith("FastLTS") and np.ndim(yy) == 2: yy = y
    if nm == "MM": yy = y
    e = mk(); run(f"{nm}.fit", lambda A, b: e.fit(A, b, **kw), XX, yy); run(f"{nm}.predict", e.predict, XX)
    if isinstance(XX, np.ndarray) and X.shape[1] > 1: run(f"{nm}.outlier_map", lambda A, b: e.outlier_map(A, b, robust_distance=False, return_data=True), XX, y); 
    if k % 8 == 0 and X.shape[1] > 1: run(f"{nm}.outlier_map", lambda A, b: e.outlier_map(A, b, return_data=True), X, y)
    if nm == "FastLTS": w = np.r_[0., np.ones(X.shape[1])]; run("FastLTS.fit(initial_weights)", lambda A, b, w: FastLTSRegression(n_initial_subsets=3).fit(A, b, initial_weights=w, verbosity=50), X, y, w)

@case("C25", quick=100)
def utilities(rng, k):
    X = matrix(rng, nmin=12, nmax=25); p = X.shape[1]; S = np.cov(X.T); m = X.mean(axis=0); I = np.linalg.inv(S); D = pd.DataFrame(X)
    run("mahalanobis_distance", mahalanobis_distance, X, m, S); run("mahalanobis_distance", mahalanobis_distance, D, m, S); run("l1median", l1median, X); run("stahel_donoho", lambda X: stahel_donoho(X, n_points=2 if k % 2 else p, n_dir=10), X); w = rng.integers(1, 5, size=len(X)); run("weighted_median", weighted_median, X[:, 0].copy(), w); run("weighted_median", weighted_median, np.round(X[:, 0]), w.astype(float))
    for rs in (True, False): o = run("wrapping_transformation", lambda X: wrapping_transformation(X, rescale=rs), X); unreached("wrapping_transformation", o, X)
    run("truncated_covariance", lambda S: truncated_covariance(S, .5), S); run("covariance_to_correlation", covariance_to_correlation, S); W = (rng.random(X.shape) < .7).astype(float); run("objective_function", objective_function, X, W, m, S, I); ix = np.arange(int(rng.integers(1, p + 1))); run("inverse_submatrix", inverse_submatrix, S, I, ix)
    for A in (X, X[:, 0].copy(), pd.Series(X[:, 0], name="q"), D): run("adjusted_boxplot", lambda A: adjusted_boxplot(A, plot=k % 5 == 0), A)
    d = np.abs(X[:, 0]).copy(); run("get_od_cutoff", get_od_cutoff, d)

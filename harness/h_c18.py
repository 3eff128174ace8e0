from multi import *
from robpy.utils.outlyingness import stahel_donoho
from robpy.utils.median import l1median
from robpy.preprocessing.utils import wrapping_transformation

def shift(rng, X, k): return [8.0, -100.0, 1000.0, .3][k % 4] * rng.normal(size=X.shape[1]) * np.nanstd(np.where(np.isfinite(X), X, np.nan), axis=0)

@case("C18", quick=204, tmo=60)
def covariance(rng, k):
    name, mk = SHIFTABLE[k % len(SHIFTABLE)]; X = cdata(rng, name, nan=k // 17 % 3 == 1); b = shift(rng, X, k // 17); p = X.shape[1]
    e = fitc(mk, X); f0 = fitc(mk, X + b); b0 = b; d = np.sqrt(np.abs(np.diag(e.covariance_)))
    if np.linalg.cond(e.covariance_ / np.outer(d, d)) > 1e5: raise Skip()
    t = 1e-6
    def compare(f):
        b = b0 if f is None else 0 * b0; f = f0 if f is None else f
        eq(f.covariance_ / np.outer(d, d), e.covariance_ / np.outer(d, d), f"{name}: covariance of shifted data", rtol=t, X=X, b=b)
        eq((f.location_ - b - e.location_) / d, np.zeros(p), f"{name}: location of shifted data", atol=1e-6, X=X, b=b)
        eq(f._robust_distances, e._robust_distances, f"{name}: distances of shifted data", rtol=1e-5, X=X, b=b); eq(f.default_covariance_, e.default_covariance_, f"{name}: sample covariance", rtol=1e-6)
        if hasattr(e, "correlation_"): eq(f.correlation_, e.correlation_, f"{name}: correlation", rtol=t)
        if name.startswith("CellMCD"):
            eq(f.W, e.W, f"{name}: cell indicators", rtol=0, X=X, b=b); eq(f.residuals, e.residuals, f"{name}: residuals", rtol=1e-5, X=X, b=b)
            eq((f.predictions - b) / d, e.predictions / d, f"{name}: predictions", rtol=1e-5, atol=1e-5); eq((f.X_imputed - b) / d, e.X_imputed / d, f"{name}: imputed data", rtol=1e-5, atol=1e-5); eq(f.conditional_stds, e.conditional_stds, f"{name}: conditional standard deviations", rtol=1e-5)
    guarded(compare, lambda Y: mk().fit(Y), X, 1e-15 * (np.nanmax(np.abs(X), axis=0) + np.abs(b0)), rng)

@case("C18", quick=70, tmo=60)
def pca(rng, k):
    name, mk = PCA[k % len(PCA)]; X = pdata(rng); b = shift(rng, X, k // 7); e = mk().fit(X); f = mk().fit(X + b); r, s0 = pres(e, X), pres(f, X + b); s0["location"] = s0["location"] - b
    def compare(s):
        s = s or s0; eq(s["k"], r["k"], f"{name}: number of components", rtol=0, X=X, b=b)
        for a in r: eq(s[a], r[a], f"{name}: {a} of shifted data", rtol=1e-5, atol=1e-5 * (np.abs(X).max() if a in ("location", "absscores", "projection") else 1), X=X, b=b)
    guarded(compare, lambda Y: pres(mk().fit(Y), Y), X, 1e-15 * (np.abs(X).max(axis=0) + np.abs(b)), rng)

@case("C18", quick=60)
def ddc(rng, k):
    name, mk = DDCS[k % len(DDCS)]; X = ddata(rng); b = shift(rng, X.values, k // 4); e = mk().fit(X); f = mk().fit(X + b)
    eq(f.cellwise_outliers_, e.cellwise_outliers_, f"{name}: cell flags of shifted data", rtol=0, X=X.values, b=b); eq(f.row_outliers_, e.row_outliers_, f"{name}: row flags of shifted data", rtol=0, X=X.values, b=b); eq(f.standardized_residuals_, e.standardized_residuals_, f"{name}: residuals of shifted data", rtol=1e-6, X=X.values, b=b)
    s = np.array(e.scale_); eq((f.rescaled_predictions_ - b) / s, e.rescaled_predictions_ / s, f"{name}: predictions", rtol=1e-6, atol=1e-6)

@case("C18", quick=120)
def outlyingness(rng, k):
    X = matrix(rng, nmin=15, nmax=40); b = shift(rng, X, k); q = [2, X.shape[1]][k % 2] if X.shape[1] > 2 else 2; s = int(rng.integers(99))
    eq(stahel_donoho(X + b, n_points=q, n_dir=40, random_seed=s), stahel_donoho(X, n_points=q, n_dir=40, random_seed=s), f"outlyingness of shifted data (n_points={q})", rtol=1e-5, X=X, b=b)

@case("C18", quick=120)
def median_and_wrapping(rng, k):
    X = matrix(rng, nmin=8); b = shift(rng, X, k); eq(l1median(X + b) - b, l1median(X), "l1median of shifted data", atol=1e-4 * X.std(), rtol=0, X=X, b=b)
    if k % 3 == 0: # an observation at the center
        Y = np.vstack([X - X.mean(axis=0), -(X - X.mean(axis=0)), np.zeros((1, X.shape[1]))]); eq(l1median(Y + b) - b, np.zeros(X.shape[1]), "l1median of centrally symmetric data", atol=1e-4 * X.std(), rtol=0, X=Y, b=b)
    for rs in (True, False): eq((wrapping_transformation(X + b, rescale=rs) - b) / X.std(), wrapping_transformation(X, rescale=rs) / X.std(), "wrapping of shifted data", rtol=1e-8, atol=1e-8, X=X, b=b)

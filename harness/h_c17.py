from multi import *
from robpy.preprocessing.utils import wrapping_transformation
def factors(rng, p, k):
    if k % 2: return 2.0 ** rng.integers(-6, 7, size=p)
    return rng.choice([1.0, 3.0, .01, 250., .7], size=p)

@case("C17", quick=160, tmo=60)
def covariance(rng, k):
    name, mk = SCALABLE[k % len(SCALABLE)]; X = cdata(rng, name, nan=k // 9 % 3 == 1); n, p = X.shape; a = factors(rng, p, k // 9)
    if name.startswith("OGK(mean") and False: raise Skip()
    e = fitc(mk, X); f0 = fitc(mk, X * a); A0 = np.outer(a, a); t = 1e-6; a0 = a
    d = np.sqrt(np.abs(np.diag(e.covariance_)))
    if np.linalg.cond(e.covariance_ / np.outer(d, d)) > 1e6: raise Skip()
    def compare(f):
        a, A = (np.ones(p), np.ones((p, p))) if f is not None else (a0, A0); f = f if f is not None else f0
        eq(f.covariance_ / A / np.outer(d, d), e.covariance_ / np.outer(d, d), f"{name}: covariance in other units", rtol=t, X=X, a=a)
        eq((f.location_ / a - e.location_) / d, np.zeros(p), f"{name}: location in other units", atol=t * max(1, np.max(np.abs(e.location_) / d)), X=X, a=a)
        if hasattr(e, "correlation_"): eq(f.correlation_, e.correlation_, f"{name}: correlation", rtol=t, X=X, a=a)
        eq(f._robust_distances, e._robust_distances, f"{name}: robust distances", rtol=t, X=X, a=a)
        if name.startswith("CellMCD"):
            eq(f.W, e.W, f"{name}: cell indicators", rtol=0, X=X, a=a); eq(f.residuals, e.residuals, f"{name}: standardized residuals", rtol=1e-5, X=X, a=a)
            eq(f.predictions / a / d, e.predictions / d, f"{name}: predictions", rtol=1e-5, X=X, a=a); eq(f.conditional_stds / a / d, e.conditional_stds / d, f"{name}: conditional standard deviations", rtol=1e-5, X=X, a=a); eq(f.X_imputed / a / d, e.X_imputed / d, f"{name}: imputed data", rtol=1e-5, X=X, a=a)
    guarded(compare, lambda Y: mk().fit(Y), X, 1e-14 * np.nanmax(np.abs(X), axis=0), rng)

@case("C17", quick=60, tmo=60)
def ddc(rng, k):
    name, mk = DDCS[k % len(DDCS)]; X = ddata(rng); a = factors(rng, X.shape[1], k // 4)
    if k % 6 == 0: a = a * 1e-7
    e = mk().fit(X); f = mk().fit(X * a)
    eq(f.cellwise_outliers_, e.cellwise_outliers_, f"{name}: cell flags in other units", rtol=0, X=X.values, a=a); eq(f.row_outliers_, e.row_outliers_, f"{name}: row flags in other units", rtol=0, X=X.values, a=a)
    eq(f.standardized_residuals_, e.standardized_residuals_, f"{name}: standardized residuals", rtol=1e-6, X=X.values, a=a); Y = ddata(rng, p=X.shape[1])
    c1, r1 = e.predict(Y); c2, r2 = f.predict(Y * a); eq(c2, c1, f"{name}: cell flags of new data", rtol=0); eq(r2, r1, f"{name}: residuals of new data", rtol=1e-6); eq(f.predict(Y * a, rowwise=True), e.predict(Y, rowwise=True), f"{name}: row flags of new data", rtol=0)

@case("C17", quick=60)
def wrapping(rng, k):
    X = matrix(rng); a = factors(rng, X.shape[1], k)
    for rs in (True, False):
        W = wrapping_transformation(X, rescale=rs); eq(wrapping_transformation(X * a, rescale=rs) / a / X.std(axis=0), W / X.std(axis=0), "wrapping in other units", rtol=1e-9, X=X, a=a)

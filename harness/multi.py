"""multivariate estimators shared by several contracts: name, constructor, data maker, results"""
from lib import *
import pandas as pd, inspect
from scipy.stats import median_abs_deviation
from robpy.univariate import Tau, Qn, OneStepWrapping, CellwiseOneStepM
from robpy.covariance import FastMCD, DetMCD, CellMCD, OGK, KendallTau, WrappingCovariance
from robpy.covariance.initial_ddcw import InitialDDCW
from robpy.pca import ROBPCA, PCALocantore
from robpy.outliers import DDC

def tau_scale(X, axis=0):
    X = np.asarray(X)
    return Tau().fit(X).scale if X.ndim == 1 else np.array([Tau().fit(c).scale for c in X.T])

def fast(**kw):
    d = dict(n_initial_subsets=30, n_best_subsets=3, random_seed=5); d.update(kw); return FastMCD(**d)

COV = [
    ("OGK", lambda: OGK()), ("OGK(reweighting)", lambda: OGK(reweighting=True)), ("OGK(tau,3 iterations)", lambda: OGK(scale_estimator=tau_scale, n_iterations=3)),
    ("OGK(mean,std)", lambda: OGK(location_estimator=np.mean, scale_estimator=np.std, reweighting=True, reweighting_beta=.8)),
    ("KendallTau", lambda: KendallTau()), ("WrappingCovariance", lambda: WrappingCovariance()),
    ("WrappingCovariance(b=1,c=3)", lambda: WrappingCovariance(b=1.0, c=3.0)),
    ("FastMCD", lambda: fast()), ("FastMCD(.75, no correction)", lambda: fast(alpha=.75, correct_covariance=False)), ("FastMCD(no reweighting)", lambda: fast(reweighting=False)),
    ("FastMCD(alpha=1)", lambda: fast(alpha=1)), ("FastMCD(partitions)", lambda: fast(alpha=.6, n_partitions=2)),
    ("DetMCD", lambda: DetMCD()), ("DetMCD(.8,no reweighting)", lambda: DetMCD(alpha=.8, reweighting=False)), ("DetMCD(alpha=1)", lambda: DetMCD(alpha=1)),
    ("CellMCD", lambda: CellMCD()), ("CellMCD(.6)", lambda: CellMCD(alpha=.6)), ("InitialDDCW", lambda: InitialDDCW()),
]
COVD = dict(COV)
CELL = ("CellMCD", "CellMCD(.6)", "InitialDDCW")
SHIFTABLE = [c for c in COV if c[0] != "InitialDDCW"]
SCALABLE = [c for c in COV if c[0].startswith(("OGK", "Kendall", "Wrapping", "CellMCD"))]

def cdata(rng, name, nan=False, p=None):
    """data within the precondition of the estimator (generic, n large enough)"""
    if name in CELL:
        p = p or int(rng.integers(2, 5)); n = int(rng.integers(max(30, 8 * p), 70))
        A = np.linalg.cholesky(.6 * np.ones((p, p)) + .4 * np.eye(p)); X = rng.normal(size=(n, p)) @ A.T
        m = rng.random((n, p)) < .03; X[m] += 9
        if nan: X[rng.random((n, p)) < .04] = np.nan
        X = X * 10.0 ** rng.integers(-1, 2, size=p) + rng.normal(size=p) * 3
        return X
    return matrix(rng, nmin=25, nmax=60, pmax=4, p=p)

def cres(e):
    """everything a fitted covariance estimator reports"""
    out = {}
    for a in ("location_", "covariance_", "correlation_", "precision_", "default_covariance_", "_robust_distances", "_mahalanobis_distances", "W", "predictions", "conditional_stds", "X_imputed", "residuals"):
        v = getattr(e, a, None)
        if v is not None: out[a] = np.array(v, dtype=float)
    return out

def fitc(mk, X):
    """fit, treating the documented refusals of the cellwise estimators as outside the precondition"""
    try: return mk().fit(X)
    except ValueError as e:
        if "At least one variable" in str(e): raise Skip()
        raise

def same(r1, r2, msg, /, rtol=1e-12, atol=0.0, **data):
    req(r1.keys() == r2.keys(), msg + ": different attributes", a=sorted(r1), b=sorted(r2))
    for k in r1: eq(r1[k], r2[k], f"{msg}: {k}", rtol=rtol, atol=atol, **data)

PCA = [("ROBPCA", lambda: ROBPCA(random_seed=3)), ("ROBPCA(k=2)", lambda: ROBPCA(n_components=2, random_seed=4)), ("ROBPCA(k=2,no MCD)", lambda: ROBPCA(n_components=2, final_MCD_step=False, random_seed=4)),
       ("ROBPCA(.9)", lambda: ROBPCA(alpha=.9, k_min_var_explained=.95, random_seed=1)), ("PCALocantore", lambda: PCALocantore()), ("PCALocantore(k=2)", lambda: PCALocantore(n_components=2)), ("PCALocantore(.99)", lambda: PCALocantore(k_min_var_explained=.99))]
def pdata(rng, n=None, p=None):
    p = p or int(rng.integers(3, 6)); n = n or int(rng.integers(35, 70))
    Q = np.linalg.qr(rng.normal(size=(p, p)))[0]; X = rng.normal(size=(n, p)) * np.sqrt(np.arange(p, 0, -1.0) ** 2) @ Q.T
    if rng.random() < .6: X[: n // 8] += 12 * rng.normal(size=p)
    return X[rng.permutation(n)] + rng.normal(size=p) * 4
def pres(e, X):
    """sign-free PCA results"""
    C = e.components_; T = e.transform(X)
    return dict(location=np.array(e.location_), projector=C @ C.T, absscores=np.abs(T), ev=np.array(e.explained_variance_), projection=e.project(X), k=np.array(float(e.n_components)), dirs=np.array([np.outer(c, c) for c in C.T]))

def ddata(rng, n=None, p=None, nan=True):
    p = p or int(rng.integers(2, 6)); n = n or int(rng.integers(30, 60))
    A = np.linalg.cholesky(.8 * np.ones((p, p)) + .2 * np.eye(p)); X = rng.normal(size=(n, p)) @ A.T
    if p > 3: X[:, -1] = rng.normal(size=n)
    m = rng.random((n, p)) < .04; X[m] += rng.choice([-8, 8, 20])
    if nan:
        X[rng.random((n, p)) < .03] = np.nan
        if rng.random() < .5: X[int(rng.integers(n)), int(rng.integers(p))] = rng.choice([np.inf, -np.inf])
    X = X * 10.0 ** rng.integers(-1, 2, size=p) + rng.normal(size=p) * 3
    return pd.DataFrame(X, columns=[f"v{j}" for j in range(p)], index=rng.permutation(n) + 100)
DDCS = [("DDC()", lambda: DDC()), ("DDC(.95,.3)", lambda: DDC(chi2_quantile=.95, min_correlation=.3)), ("DDC(wrapping)", lambda: DDC(chi2_quantile=.9, scale_estimator=OneStepWrapping())), ("DDC(.9)", lambda: DDC(min_correlation=.9))]
def dres(d):
    return {a: np.array(getattr(d, a), dtype=float) for a in ("cellwise_outliers_", "standardized_residuals_", "row_outliers_", "predictions_", "rescaled_predictions_", "location_", "scale_", "robust_correlation_", "slopes_", "deshrinkage_")}

def config(e, skip=("n_components",)):
    """snapshot of the constructor parameters (nested estimators by their own parameters)"""
    out = {}
    for c in type(e).__mro__:
        if "__init__" in vars(c):
            for p in inspect.signature(c.__init__).parameters.values():
                if p.name not in ("self", "kwargs", "args") and p.name not in skip and hasattr(e, p.name): out[p.name] = getattr(e, p.name)
            break
    return {k: (repr(v) if isinstance(v, (int, float, str, bool, type(None))) else (type(v).__name__, config(v)) if hasattr(v, "__dict__") and not callable(v) else repr(v)) for k, v in out.items()}

def guarded(compare, refit, X, size, rng):
    """run compare(); when it fails, make sure that the instance is numerically stable: if data perturbed by rounding-size noise
    already give different results, the instance says nothing about the property"""
    try: compare(None)
    except Bad:
        for _ in range(24):
            try: f = refit(X + size * rng.uniform(-1, 1, size=X.shape))
            except Exception: raise Skip()
            try: compare(f)
            except Bad: raise Skip()
        raise

from lib import *
from scipy.stats import median_abs_deviation
from robpy.preprocessing.utils import wrapping_transformation
from robpy.covariance import WrappingCovariance

def curve(z, b, c, q1, q2):
    a = np.abs(z)
    return np.where(a < b, z, np.where(a <= c, q1 * np.tanh(q2 * (c - a)) * np.sign(z), 0.))

def data(rng, k):
    n, p = int(rng.integers(8, 50)), int(rng.integers(1, 4))
    X = np.column_stack([sample(rng, n=n, kind=str(rng.choice(["normal", "heavy", "outl", "skew", "int", "fewvals"]))) for _ in range(p)])
    if k % 6 == 0: X[:, 0] = 3.25
    if k % 9 == 0: X[:, -1] = np.where(np.arange(n) < n // 2 + 1, 1.0, rng.normal(size=n))
    return X * 10. ** float(rng.integers(-14, 10)) if k % 5 == 4 else X

@case("C07", quick=400)
def before_rescaling(rng, k):
    X = data(rng, k)
    b, c, q1, q2 = [(1.5, 4., 1.540793, .8622731), (1.3, 3.5, 1.3, .9), (2., 5., 1.2, .7)][k % 3]
    kw = {} if k % 3 == 0 else dict(b=b, c=c, q1=q1, q2=q2)
    Y = wrapping_transformation(X, rescale=False, **kw)
    m, s = np.median(X, axis=0), median_abs_deviation(X, axis=0)
    for j in range(X.shape[1]):
        x, y = X[:, j], Y[:, j]
        if s[j] == 0:
            if np.ptp(x) == 0: eq(y, x, "constant column", rtol=1e-14)
            continue
        z = (x - m[j]) / s[j]; tol = 1e-12 * (np.abs(x).max() + s[j]); edge = (np.abs(np.abs(z) - b) < 1e-9) | (np.abs(np.abs(z) - c) < 1e-9)
        i = (np.abs(z) < b) & ~edge; req((np.abs(y[i] - x[i]) <= tol).all(), "central cells changed", x=x[i], y=y[i])
        i = (np.abs(z) > c) & ~edge; req((np.abs(y[i] - m[j]) <= tol).all(), "outlying cells not at the location", z=z[i], y=y[i], location=m[j])
        i = ~edge; req((np.abs(y - (m[j] + s[j] * curve(z, b, c, q1, q2)))[i] <= 10 * tol).all(), "wrapped value is not on the stated curve", z=z[i], y=y[i], params=(b, c, q1, q2))
        Y2 = wrapping_transformation((2 * m[j] - x).reshape(-1, 1), rescale=False, location_estimator=lambda *_, **__: m[[j]], scale_estimator=lambda *_, **__: s[[j]], **kw).ravel()
        req((np.abs(Y2 + y - 2 * m[j])[i] <= 10 * tol).all(), "not odd around the location", x=x)
        zz = 2 * m[j] - x
        for v in np.unique(x): req(np.ptp(y[x == v]) == 0, "equal cells map to different values")

@case("C07", quick=400)
def after_rescaling(rng, k):
    X = data(rng, k); kw = [{}, dict(b=1.3, c=3.5, q1=1.3, q2=.9)][k % 2]
    loc, sc = [(np.median, median_abs_deviation), (np.mean, np.std)][k // 2 % 2]
    Y = wrapping_transformation(X, location_estimator=loc, scale_estimator=sc, **kw)
    m, s = loc(X, axis=0), sc(X, axis=0)
    U = wrapping_transformation(X, rescale=False, location_estimator=loc, scale_estimator=sc, **kw)
    for j in range(X.shape[1]):
        tol = 1e-10 * (np.abs(X[:, j]).max() + s[j])
        req(abs(Y[:, j].mean() - m[j]) <= tol, "column mean after rescaling is not the robust location", got=Y[:, j].mean(), loc=m[j], x=X[:, j])
        if np.ptp(X[:, j]) == 0: req((np.abs(Y[:, j] - X[:, j]) <= tol).all(), "constant column changed", x=X[:, j], y=Y[:, j])
        elif s[j] > 0 and U[:, j].std() > 1e-9 * np.abs(X[:, j]).max():
            req(abs(Y[:, j].std() - s[j]) <= 1e-8 * s[j] + tol, "column std after rescaling is not the robust scale", got=Y[:, j].std(), scale=s[j], x=X[:, j])
            a = (Y[:, j] - m[j]) / s[j]; u = U[:, j]
            req(abs(np.corrcoef(a, u)[0, 1] - 1) < 1e-8, "rescaling is not affine", x=X[:, j])

@case("C07", quick=60)
def covariance(rng, k):
    X = matrix(rng, nmin=20); b, c, q1, q2 = [(1.5, 4., 1.540793, .8622731), (1.3, 3.5, 1.3, .9)][k % 2]
    w = WrappingCovariance(b=b, c=c, q1=q1, q2=q2).fit(X)
    m, s = np.median(X, axis=0), median_abs_deviation(X, axis=0)
    u = curve((X - m) / s, b, c, q1, q2); Y = (u - u.mean(axis=0)) / u.std(axis=0) * s + m
    eq(w.covariance_, np.cov(Y.T), "WrappingCovariance is not the covariance of the wrapped data", rtol=1e-9); eq(w.correlation_, np.corrcoef(Y.T), "correlation of the wrapped data", rtol=1e-9)

from reg import *
from robpy.regression import FastLTSRegression as F, MMRegression
from robpy.utils.rho import TukeyBisquare, Huber

def lts(k, **kw): return F(**{**dict(alpha=[.5, .75, .9, 1.0][k % 4], n_initial_subsets=25, n_best_models=5, random_state=k % 17, reweighting=bool(k // 4 % 2)), **kw})

@case("C14", quick=150, tmo=60)
def lts_regression(rng, k):
    X, y = data(rng, nmin=20); n, p = X.shape; b = rng.normal(size=p) * 2; c = float(rng.choice([0., 7., -50.]))
    e1 = lts(k).fit(X, y, verbosity=50); e2 = lts(k).fit(X, y + X @ b + c, verbosity=50); s = np.abs(y).max() + np.abs(X @ b + c).max()
    c1, c2 = coefs(e1.model), coefs(e2.model); r1 = y - pred(c1, X); r2 = y + X @ b + c - pred(c2, X)
    req(np.abs(r2 - r1).max() <= 1e-6 * s, "LTS residuals change when Xb+c is added to y", b=b, c=c, r1=r1, r2=r2, X=X, y=y)
    req(np.abs((c2[1:] - c1[1:] - b) * X.std(axis=0)).max() <= 1e-6 * s, "LTS coefficients do not move by b", c1=c1, c2=c2, b=b)
    req(abs(e1.scale - e2.scale) <= 1e-6 * s, "LTS scale changes", s1=e1.scale, s2=e2.scale)
    req(np.abs(np.ravel(e2.predict(X)) - np.ravel(e1.predict(X)) - X @ b - c).max() <= 1e-6 * s, "LTS predictions")
    a = [2., .25, 1000., 3.7][k % 4]; e3 = lts(k).fit(X, a * y, verbosity=50)
    eq(coefs(e3.model) * np.r_[1, X.std(axis=0)], a * c1 * np.r_[1, X.std(axis=0)], f"LTS coefficients of {a}*y", rtol=1e-6, X=X, y=y); eq(e3.scale, a * e1.scale, f"LTS scale of {a}*y", rtol=1e-6)

@case("C14", quick=150, tmo=60)
def mm_regression(rng, k):
    X, y = data(rng, nmin=20); n, p = X.shape; b = rng.normal(size=p) * 2; c = float(rng.choice([0., 7., -50.])); rho = [TukeyBisquare(c=3.44), TukeyBisquare(c=4.685), Huber(b=1.5)][k % 3]
    def mm(y): return MMRegression(initial_estimator=lts(k, reweighting=True), rho=rho, epsilon=1e-9).fit(X, y if k % 2 else y.reshape(-1, 1))
    import logging; logging.getLogger("FastLTS").setLevel(50)
    e1, e2 = mm(y), mm(y + X @ b + c); s = np.abs(y).max() + np.abs(X @ b + c).max(); c1, c2 = coefs(e1.model), coefs(e2.model)
    req(np.abs((c2[1:] - c1[1:] - b) * X.std(axis=0)).max() <= 1e-5 * s, "MM coefficients do not move by b", c1=c1, c2=c2, b=b, X=X, y=y)
    req(abs(c2[0] - c1[0] - c) <= 1e-5 * s * (1 + np.abs(X.mean(axis=0) / X.std(axis=0)).max()), "MM intercept does not move by c", c1=c1, c2=c2, c=c, X=X, y=y)
    req(np.abs(np.ravel(e2.predict(X)) - np.ravel(e1.predict(X)) - X @ b - c).max() <= 1e-5 * s, "MM predictions"); req(abs(e1.scale - e2.scale) <= 1e-6 * s, "MM scale changes")

class Start:
    """equivariant initial fit: least squares on the first rows, scale of its residuals"""
    def fit(self, X, y):
        from sklearn.linear_model import LinearRegression
        m = LinearRegression().fit(X[:X.shape[1] + 8], y[:X.shape[1] + 8]); m.scale = float(np.median(np.abs(y - m.predict(X))) / .6745); return m

@case("C14", quick=60, tmo=60)
def mm_large_shift(rng, k):
    n, p = int(rng.integers(25, 80)), int(rng.integers(1, 4)); X = rng.normal(size=(n, p)); y = X @ rng.normal(size=p) + rng.standard_t(2, size=n); y[:n // 6] += rng.choice([0., 20.])
    b = rng.normal(size=p) * 10; c = float(rng.choice([1e5, -1e6, 1e7])); f = lambda y: MMRegression(initial_estimator=Start(), rho=Huber(b=[1.345, .8][k % 2]), epsilon=1e-7).fit(X, y)
    e1, e2 = f(y), f(y + X @ b + c); c1, c2 = coefs(e1.model), coefs(e2.model)
    req(np.abs(c2 - c1 - np.r_[c, b]).max() <= 1e-5 * e1.scale, "MM coefficients do not move by c, b when a large Xb + c is added", c1=c1, c2=c2, b=b, c=c, X=X, y=y)

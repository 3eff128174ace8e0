from uni import *
from robpy.univariate.adjusted_boxplot import adjusted_boxplot
from robpy.preprocessing import RobustScaler, RobustPowerTransformer
from robpy.preprocessing.utils import wrapping_transformation
from robpy.covariance import OGK, WrappingCovariance, KendallTau
from robpy.utils.distance import mahalanobis_distance

def perm(rng, n, k):
    return [np.arange(n)[::-1], np.roll(np.arange(n), 1), rng.permutation(n), np.argsort(rng.random(n))][k % 4]

@case("C02", quick=600)
def univariate(rng, k):
    name, mk = CONF[k % len(CONF)]
    x = sample(rng, nmin=2, nmax=40)
    pi = np.argsort(x, kind="stable") if k % 5 == 0 else perm(rng, len(x), k)
    e1, e2 = mk().fit(x), mk().fit(x[pi])
    tol = dict(rtol=1e-9, atol=1e-9 * np.ptp(x))
    eq(e2.location, e1.location, f"{name}: location after permutation", x=x, pi=pi, **tol)
    if e1.scale > 1e-9 * np.abs(x).max() or e2.scale > 1e-9 * np.abs(x).max():
        eq(e2.scale, e1.scale, f"{name}: scale after permutation", x=x, pi=pi, rtol=1e-7)

@case("C02", quick=60)
def boxplot(rng, k):
    x = sample(rng, nmin=4, nmax=40); pi = perm(rng, len(x), k)
    b1, b2 = adjusted_boxplot(x, plot=False)[0], adjusted_boxplot(x[pi], plot=False)[0]
    for f in ("median", "q1", "q3", "upper_whisker", "lower_whisker"):
        eq(getattr(b2, f), getattr(b1, f), f"adjusted boxplot {f} after permutation", atol=1e-9 * np.ptp(x), x=x, pi=pi)

@case("C02", quick=60)
def rows(rng, k):
    X = matrix(rng, pmax=4, scale=True); n = len(X); pi = perm(rng, n, k)
    name, mk = CONF[k % len(CONF)]
    Z = RobustScaler(mk()).fit_transform(X); Z2 = RobustScaler(mk()).fit_transform(X[pi])
    eq(Z2, Z[pi], f"RobustScaler({name}) after permutation", rtol=1e-8, X=X, pi=pi)
    for r in (True, False):
        eq(wrapping_transformation(X[pi], rescale=r), wrapping_transformation(X, rescale=r)[pi], "wrapped data after permutation", rtol=1e-9, X=X, pi=pi)
    m, S = X.mean(axis=0), np.cov(X.T)
    eq(mahalanobis_distance(X[pi], m, S), mahalanobis_distance(X, m, S)[pi], "distances after permutation", rtol=1e-9)

@case("C02", quick=48, tmo=120)
def power(rng, k):
    n = int(rng.integers(15, 50)); x = np.exp(rng.normal(size=n)) if k % 2 else rng.normal(size=n) ** 3
    meth = "yeojohnson" if k % 2 == 0 else ["boxcox", "auto", "yeojohnson"][k // 2 % 3]; pi = perm(rng, n, k)
    t1, t2 = RobustPowerTransformer(method=meth).fit(x), RobustPowerTransformer(method=meth).fit(x[pi])
    req(t1.method_ == t2.method_, "chosen method after permutation", x=x, pi=pi)
    eq(t2.lambda_rew, t1.lambda_rew, f"{meth} lambda after permutation", rtol=1e-6, atol=1e-6, x=x, pi=pi)
    eq(t2.transform(x[pi]), t1.transform(x)[pi], f"{meth} transform after permutation", rtol=1e-6, x=x, pi=pi)

COV = [("OGK", lambda: OGK(store_precision=True)), ("OGK(3 iter)", lambda: OGK(n_iterations=3)), ("OGK(no reweighting)", lambda: OGK(reweighting=False)), ("Wrapping", lambda: WrappingCovariance()), ("Kendall", lambda: KendallTau())]
@case("C02", quick=60)
def covariance(rng, k):
    name, mk = COV[k % len(COV)]
    X = matrix(rng, nmin=20, scale=True); pi = perm(rng, len(X), k)
    c1, c2 = mk().fit(X), mk().fit(X[pi])
    s = np.sqrt(np.diag(c1.covariance_))
    eq(c2.covariance_ / np.outer(s, s), c1.covariance_ / np.outer(s, s), f"{name}: covariance after permutation", rtol=1e-7, X=X, pi=pi)
    eq((c2.location_ - c1.location_) / s, 0 * s, f"{name}: location after permutation", atol=1e-7 * max(1, (np.abs(c1.location_) / s).max()), X=X, pi=pi)
    if hasattr(c1, "_robust_distances"):
        eq(c2._robust_distances, c1._robust_distances[pi], f"{name}: robust distances after permutation", rtol=1e-6, X=X, pi=pi)

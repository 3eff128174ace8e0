from lib import *
from robpy.utils.median import l1median
def pts(rng, k):
    n, p = int(rng.integers(1, 40)), int(rng.integers(1, 6)); X = rng.normal(size=(n, p)) * 10.0 ** rng.integers(-1, 3) + rng.choice([0, 0, 20.])
    m = k % 8
    if m == 1: X = np.round(rng.normal(size=(n, p)) * 2)
    elif m == 2: X = np.vstack([X - X.mean(axis=0), X.mean(axis=0) - X, np.zeros((1, p))])       # an observation at the mean
    elif m == 3: X[: n // 2 + 1] = X[0]                                                                # majority at one point
    elif m == 4: X = np.outer(rng.normal(size=n), rng.normal(size=p)) + 1
    elif m == 5: X[: n // 5] += 500; 
    elif m == 6: X = rng.integers(0, 3, size=(n, p)).astype(float)
    return X
def tot(X, m): return np.sqrt(((X - m) ** 2).sum(axis=1)).sum()

@case("C29", quick=800, tmo=20)
def central(rng, k):
    X = pts(rng, k); X0 = X.copy(); m = l1median(X); s = np.abs(X - X.mean(axis=0)).max(); t = 1e-9 * (np.abs(X).max() + 1e-300)
    req(m.shape == (X.shape[1],) and finite(m), "shape/finite", got=m, X=X); req((m >= X.min(axis=0) - t).all() and (m <= X.max(axis=0) + t).all(), "outside the range of the data", m=m, X=X)
    req(tot(X, m) <= tot(X, X.mean(axis=0)) * (1 + 1e-9) + 1e-9 * s + t, "less central than the mean", got=tot(X, m), mean=tot(X, X.mean(axis=0)), X=X)
    d = np.sqrt(((X - m) ** 2).sum(axis=1))
    if (d > 1e-6 * max(s, 1e-300)).all() and (d > 1e-6).all(): w = 1 / d; req(np.abs((X * w[:, None]).sum(axis=0) / w.sum() - m).sum() < 1e-7 + t, "one more reweighting step moves it by the tolerance or more", m=m, X=X)
    elif (d == 0).any():
        z = d > 0; g = ((X[z] - m) / d[z][:, None]).sum(axis=0) if z.any() else np.zeros(X.shape[1])
        if (d[z] > 1e-3 * s).all(): req(np.linalg.norm(g) <= (~z).sum() + 1e-3, "stopped at an observation that is not the median", m=m, X=X)

@case("C29", quick=200, tmo=20)
def reference(rng, k):
    X = pts(rng, k); m = l1median(X); b = tot(X, m); s = np.abs(X - X.mean(axis=0)).max() + 1e-300
    if s < .1 or len(X) < 3: raise Skip()
    for r in (1e-1, 1e-2, 1e-3):
        for _ in range(20): q = m + r * s * rng.normal(size=X.shape[1]); req(tot(X, q) >= b - 1e-5 * len(X) * s, "a nearby point is more central", m=m, better=q, gain=b - tot(X, q), X=X)
    for x in X: req(tot(X, x) >= b - 1e-5 * len(X) * s, "an observation is more central", m=m, X=X)

@case("C29", quick=60)
def one_dimension(rng, k):
    n = int(2 * rng.integers(1, 12) + 1); x = np.unique(rng.integers(-50, 50, size=n)).astype(float)
    if len(x) % 2 == 0: x = x[1:]
    if len(x) < 3: raise Skip()
    m = l1median(x[:, None]); req(abs(m[0] - np.median(x)) < .05 * np.ptp(x), "median of a univariate sample", got=m, x=x)

from lib import *
def data(rng, n=None, p=None, nmin=15, nmax=60, pmax=4, outl=True):
    p = p or int(rng.integers(1, pmax + 1)); n = n or int(rng.integers(max(nmin, 4 * p + 6), nmax + 1))
    X = rng.normal(size=(n, p)) * (10.0 ** rng.integers(-1, 2, size=p)) + rng.choice([0, 0, 3.])
    b = rng.normal(size=p); y = X @ b + rng.choice([0, 5.]) + rng.normal(size=n) * [1, .2, 3][int(rng.integers(3))]
    if outl:
        m = int(rng.integers(0, n // 4 + 1)); y[:m] += rng.choice([-1, 1]) * 20 * (1 + rng.random(m))
        if rng.random() < .3: X[:m] += 8
    q = rng.permutation(n)
    return X[q], y[q]
def ls(X, y, w=None):
    """least squares with intercept: (intercept, coef)"""
    y = np.asarray(y, float).ravel(); A = np.column_stack([np.ones(len(y)), X]); s = np.ones(len(y)) if w is None else np.sqrt(np.asarray(w, float).ravel())
    b = np.linalg.lstsq(A * s[:, None], y * s, rcond=None)[0]
    return b
def pred(b, X): return b[0] + X @ b[1:]
def coefs(model): return np.concatenate([np.ravel(model.intercept_), np.ravel(model.coef_)])

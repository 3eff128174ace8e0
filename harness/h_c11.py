from lib import *
import robpy.covariance.mcd as M, robpy.regression.lts as L
from robpy.univariate import UnivariateMCD
from robpy.covariance import FastMCD, DetMCD, CellMCD
from robpy.covariance.initial_ddcw import InitialDDCW
from robpy.regression import FastLTSRegression
from robpy.pca import ROBPCA

def rule(alpha, n, m):
    """the documented rule; None = must be rejected"""
    if alpha is None: return m
    if isinstance(alpha, (int, np.integer)) and not isinstance(alpha, bool) and n / 2 <= alpha <= n: h = int(alpha)
    elif alpha == 1 or (isinstance(alpha, float) and .5 <= alpha <= 1): h = int(alpha * n)
    else: return None
    return min(max(h, m), n)

def alphas(rng, n):
    return [None, .5, .51, .6, .75, .9, .999, 1.0, 1, n // 2 + 1, n // 2 + 2, n - 1, n, int(np.ceil(n / 2)), float(rng.uniform(.5, 1)), float(rng.uniform(.5, .6))]
def bad(n): return [.49, .3, 1.01, 1.5, n + 1, n // 2 - 1 if n // 2 - 1 > 1 else -1, -1, 0, 0.0, n * 2, -.75]

@case("C11", quick=500)
def univariate(rng, k):
    n = int(rng.integers(3, 60)); x = generic(rng, n=n)
    A = alphas(rng, n); a = A[k % len(A)]; h = rule(a, n, n // 2 + 1)
    if h is not None:
        e = UnivariateMCD(alpha=a).fit(x); req(e.h_size == h, f"UnivariateMCD h for n={n}, alpha={a!r}", got=e.h_size, expected=h)
    B = bad(n); a = B[k % len(B)]
    if rule(a, n, n // 2 + 1) is None: raises(ValueError, lambda: UnivariateMCD(alpha=a).fit(x), f"UnivariateMCD alpha={a!r}, n={n}")

@case("C11", quick=400)
def mcd(rng, k):
    p = int(rng.integers(2, 6)); n = int(rng.integers(3 * p + 4, 70)); X = rng.normal(size=(n, p))
    A = alphas(rng, n); a = A[k % len(A)]; h = rule(a, n, (n + p + 1) // 2)
    for mk in ([lambda **kw: FastMCD(n_initial_subsets=3, n_best_subsets=2, random_seed=1, n_partitions=1, **kw)] + ([lambda **kw: DetMCD(**kw)] if k % 4 == 0 else [])):
        e = mk(alpha=a); nm = type(e).__name__
        if h is not None:
            e._n_obs = n
            req(e._get_h(X) == h, f"{nm}._get_h for n={n}, p={p}, alpha={a!r}", got=e._get_h(X), expected=h)
            e = mk(alpha=a).fit(X)
            if not (a == 1 or a == n): req(len(e.best_subset.indices) == h and len(set(e.best_subset.indices.tolist())) == h, f"{nm} best subset size for n={n}, p={p}, alpha={a!r}", got=len(e.best_subset.indices), expected=h)
        B = bad(n); b = B[k % len(B)]
        if rule(b, n, (n + p + 1) // 2) is None: raises(ValueError, lambda: mk(alpha=b).fit(X), f"{nm} alpha={b!r}, n={n}, p={p}")

@case("C11", quick=60)
def partitions(rng, k):
    p = int(rng.integers(2, 4)); n = [610, 90, 200][k % 3]; X = rng.normal(size=(n, p)); q = [None, 3, 4][k % 3]
    a = [.75, None, int(.6 * n), .5, int(n / 2) + 3, n - 2, 0.99][k % 7]
    e = FastMCD(alpha=a, n_initial_subsets=10, n_best_subsets=2, n_partitions=q, random_seed=k)
    sizes = []
    orig = e._perform_c_step
    def step(subset, Y):
        r = orig(subset, Y); sizes.append((len(Y), len(r.indices))); return r
    e._perform_c_step = step
    e.fit(X); h = rule(a, n, (n + p + 1) // 2)
    req(len(e.best_subset.indices) == h, f"FastMCD best subset size, n={n}, {q} partitions, alpha={a!r}", got=len(e.best_subset.indices), expected=h)
    for m, got in sizes:
        if m == n: exp = (h,)
        else:
            lo = (m + p + 1) // 2; pr = a if isinstance(a, float) else (None if a is None else a / n)
            exp = (lo,) if pr is None else (max(int(pr * m), lo), max(int(a * m // n) if isinstance(a, int) else 0, lo))
        req(got in exp, f"subset size on a partition of {m} of {n} observations, alpha={a!r}", got=got, expected=exp)

@case("C11", quick=150)
def lts(rng, k):
    p = int(rng.integers(1, 5)); n = int(rng.integers(2 * p + 6, 50)); X = rng.normal(size=(n, p)); y = X.sum(axis=1) + rng.normal(size=n)
    a = [.5, .6, .75, .9, .999, 1, 1.0, float(rng.uniform(.5, 1)), float(rng.uniform(.5, .6))][k % 9]
    e = FastLTSRegression(alpha=a, n_initial_subsets=4, n_best_models=2).fit(X, y, verbosity=50); h = min(max(int(n * a), (n + p + 1) // 2), n)
    req(len(e.best_h_subset) == h and len(set(np.asarray(e.best_h_subset).tolist())) == h, f"LTS subset size for n={n}, p={p}, alpha={a!r}", got=len(e.best_h_subset), expected=h)
    for b in (.49, 1.01, 0, 2, -1., n):
        raises(ValueError, lambda: FastLTSRegression(alpha=b, n_initial_subsets=2).fit(X, y, verbosity=50), f"LTS alpha={b!r}")

@case("C11", quick=60)
def robpca(rng, k):
    import robpy.pca.robpca as R
    p = int(rng.integers(2, 6)); n = int(rng.integers(15, 60)); X = rng.normal(size=(n, p)) * np.arange(1, p + 1); a = [.5, .6, .75, .9, 1, 1.0, float(rng.uniform(.5, 1))][k % 7]; nc = [None, 2][k % 2]
    seen = []
    class NP:
        def __getattr__(s, m): return getattr(np, m)
        def cov(s, Y, **kw): seen.append(len(Y)); return np.cov(Y, **kw)
    old = R.np; R.np = NP()
    try:
        ROBPCA(alpha=a, n_components=nc, random_seed=1, final_MCD_step=False).fit(X)
        kk = 10 if nc is None else nc
        h = min(max(int(a * n), (n + kk + 1) // 2), n)
        if seen: req(seen[0] == h, f"ROBPCA h-subset size for n={n}, k={nc}, alpha={a!r}", got=seen[0], expected=h)
        for b in (.49, 1.01, 0, 2, -1.): raises(ValueError, lambda: ROBPCA(alpha=b, n_components=nc, random_seed=1).fit(X), f"ROBPCA alpha={b!r}")
    finally: R.np = old

@case("C11", quick=24, tmo=120)
def cellmcd(rng, k):
    p = 2 + k % 2; n = int(rng.integers(5 * p + 5, 45)); X = rng.normal(size=(n, p)) @ (np.eye(p) + .5); X[rng.random(X.shape) < .03] += 8
    a = [.5, .55, .75, .8, float(rng.uniform(.5, .8))][k % 5]
    try: e = CellMCD(alpha=a).fit(X)
    except ValueError as err:
        if "variable" in str(err): raise Skip()
        raise
    h = round(max(a, (n // 2 + 1) / n) * n)
    req((e.W.sum(axis=0) >= h).all(), f"CellMCD keeps fewer than h={h} cells of a column, n={n}, alpha={a}", kept=e.W.sum(axis=0))
    eq(e.alpha_, max(a, (n // 2 + 1) / n), "CellMCD proportion used", rtol=1e-12)
    for b in (.49, 1.01, 0., 2, -1.):
        raises(ValueError, lambda: CellMCD(alpha=b).fit(X), f"CellMCD alpha={b!r}"); raises(ValueError, lambda: InitialDDCW(alpha=b).fit(X), f"InitialDDCW alpha={b!r}")

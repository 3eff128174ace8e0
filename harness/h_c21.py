from multi import *
import h_c20
from h_c20 import cond, data, CFG, objective
lib_cases = CASES.pop("C20", None)
from robpy.utils.general import inverse_submatrix
from robpy.covariance.utils.cellmcd_utils import objective_function

@case("C21", quick=150, tmo=60)
def predictions(rng, k):
    c = CFG[k % len(CFG)]; X = data(rng, k); e = fitc(lambda: CellMCD(**c), X); m, S = e.location_, e.covariance_; n, p = X.shape; P = np.zeros((n, p)); V = np.zeros((n, p))
    for i in range(n):
        for j in range(p): P[i, j], V[i, j] = cond(X[i], np.array([q for q in range(p) if q != j and e.W[i, q] == 1], dtype=int), j, m, S)
    sd = np.sqrt(np.diag(S)); eq(e.conditional_stds / sd, np.sqrt(V) / sd, f"CellMCD({c}): conditional standard deviations", rtol=1e-6, X=X); eq((e.predictions - m) / sd, (P - m) / sd, f"CellMCD({c}): predictions are not the conditional means", rtol=1e-6, X=X)
    R = (X - P) / np.sqrt(V); q = np.array([OneStepWrapping().fit(r, ignore_nan=True).scale for r in R.T]); eq(e.residuals, R / q, f"CellMCD({c}): standardized residuals", rtol=1e-6, X=X)

def spd(rng, p):
    A = rng.normal(size=(p, p)); return A @ A.T + np.eye(p) * rng.choice([.1, 1.])

@case("C21", quick=300)
def inverses(rng, k):
    p = int(rng.integers(1, 8)); S = spd(rng, p); I = np.linalg.inv(S); n = int(rng.integers(1, p + 1)); ix = np.sort(rng.choice(p, n, replace=False)); S0, I0 = S.copy(), I.copy()
    if k % 3 == 0: S = S + .3 * np.triu(rng.normal(size=(p, p)), 1); I = np.linalg.inv(S); S0, I0 = S.copy(), I.copy()
    if np.linalg.cond(S) > 1e5: raise Skip()
    B = S[np.ix_(ix, ix)]
    if np.linalg.cond(B) > 1e5: raise Skip()
    r = inverse_submatrix(S, I, ix); eq(r @ B, np.eye(n), "inverse_submatrix times the submatrix", rtol=1e-6, S=S, indices=ix); req(np.array_equal(S, S0) and np.array_equal(I, I0), "inverse_submatrix changed its arguments")

@case("C21", quick=150)
def likelihood(rng, k):
    p = int(rng.integers(1, 6)); n = int(rng.integers(2, 25)); X = rng.normal(size=(n, p)); W = (rng.random((n, p)) < .7).astype(float); S = spd(rng, p); m = rng.normal(size=p)
    if k % 3 == 0: W[0] = 1
    if k % 4 == 0: W[-1] = 0
    X = np.where((W == 0) & (rng.random((n, p)) < .5), np.nan, X); o = objective_function(X, W, m, S, np.linalg.inv(S)); eq(o, objective(X, W, m, S), "objective_function is not the observed-cells Gaussian deviance", rtol=1e-8, X=X, W=W, S=S, m=m)

@case("C21", quick=200)
def criterion(rng, k):
    p = int(rng.integers(1, 6)); n = int(rng.integers(2, 25)); X = rng.normal(size=(n, p)); W = (rng.random((n, p)) < .6).astype(float); S = spd(rng, p); m = rng.normal(size=p)
    if k % 3 == 0: W[0] = 1
    if k % 4 == 0: W[-1] = 0
    X = np.where((W == 0) & (rng.random((n, p)) < .5), np.nan, X); j = int(rng.integers(p)); W0 = W.copy(); d = CellMCD()._calculate_delta(X, W, S, np.linalg.inv(S), m, j); req(np.array_equal(W, W0), "_calculate_delta changed W")
    t = np.full(n, np.inf)
    for i in range(n):
        if np.isfinite(X[i, j]): c, v = cond(X[i], np.array([q for q in range(p) if q != j and W[i, q] == 1], dtype=int), j, m, S); t[i] = (X[i, j] - c) ** 2 / v + np.log(v) + np.log(2 * np.pi)
    eq(d, t, "the flagging criterion is not the conditional Gaussian deviance", rtol=1e-7, X=X, W=W, S=S, m=m, j=j)

@case("C21", quick=100)
def rowwise(rng, k):
    p = int(rng.integers(2, 6)); n = 20; X = rng.normal(size=(n, p)); W = (rng.random((n, p)) < .6).astype(float); W[0] = 1; W[1] = 0; W[2] = 0; W[2, k % p] = 1; S = spd(rng, p); m = rng.normal(size=p); Z = np.where((W == 0) & (rng.random((n, p)) < .5), np.nan, X)
    P, V = CellMCD()._make_predictions(Z, S, np.linalg.inv(S), m, W)
    for i in range(n):
        for j in range(p): c, v = cond(Z[i], np.array([q for q in range(p) if q != j and W[i, q] == 1], dtype=int), j, m, S); eq(P[i, j], c, f"prediction of a cell (row pattern {W[i]}, column {j})", rtol=1e-7, atol=1e-8); eq(V[i, j], v, f"conditional variance (row pattern {W[i]}, column {j})", rtol=1e-7)

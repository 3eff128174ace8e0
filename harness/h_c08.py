from uni import *
from robpy.preprocessing import RobustScaler

def data(rng, k):
    n, p = int(rng.integers(6, 40)), int(rng.integers(1, 5))
    return np.column_stack([generic(rng, n=n) for _ in range(p)])

@case("C08", quick=400)
def standardize(rng, k):
    X = data(rng, k); name, mk = CONF[k % len(CONF)]; wc, ws = [(True, True), (True, False), (False, True), (False, False)][k // 3 % 4]
    nan = k % 4 == 3
    if nan:
        M = rng.random(X.shape) < .15; M[:4] = False; X = np.where(M, np.nan, X)
    s = RobustScaler(mk(), with_centering=wc, with_scaling=ws); s.fit(X, ignore_nan=nan)
    L = np.zeros(X.shape[1]); S = np.ones(X.shape[1])
    for j in range(X.shape[1]):
        c = X[:, j]; e = mk().fit(c[~np.isnan(c)])
        if wc: L[j] = e.location
        if ws: S[j] = e.scale
    if (S <= 1e-6 * np.nanstd(X, axis=0)).any(): raise Skip()
    eq(s.locations_, L, f"{name} wc={wc} ws={ws}: locations_", rtol=1e-13); eq(s.scales_, S, f"{name} wc={wc} ws={ws}: scales_", rtol=1e-13)
    for A in (X, data(rng, k)[:, :1] * np.ones(X.shape[1]), X[:1]):
        Z = s.transform(A)
        eq(Z, (A - L) / S, f"{name} wc={wc} ws={ws}: transform", rtol=1e-12)
        B = s.inverse_transform(Z)
        req((np.isnan(B) == np.isnan(A)).all(), "missing cells"); m = ~np.isnan(A)
        req((np.abs(B - A)[m] <= 1e-12 * (np.abs(A) + np.abs(L) + np.abs(S) * 0)[m] * 4).all(), f"{name} wc={wc} ws={ws}: inverse_transform(transform(X)) != X", X=A, got=B)
        B2 = s.transform(s.inverse_transform(A)); req(close(B2[m], A[m], 1e-6) or (np.abs(B2 - A)[m] <= 1e-9 * (np.abs(L / S) + np.abs(A))[m]).all(), "transform(inverse_transform(Z)) != Z")
    if not nan: eq(RobustScaler(mk(), with_centering=wc, with_scaling=ws).fit_transform(X), (X - L) / S, "fit_transform", rtol=1e-12)
    eq(s.locations_, L, "locations_ changed by transform", rtol=1e-13)

@case("C08", quick=60)
def forms(rng, k):
    x = generic(rng, nmin=6); s = RobustScaler().fit(x); e = UnivariateMCD().fit(x)
    if e.scale == 0: raise Skip()
    eq(s.transform(x), ((x - e.location) / e.scale).reshape(-1, 1), "1-d input", rtol=1e-13)
    eq(s.inverse_transform(s.transform(x)), x.reshape(-1, 1), "1-d inverse", rtol=1e-12)
    y = x.copy(); y[2] = np.nan
    raises(ValueError, lambda: RobustScaler().fit(y), "missing values without ignore_nan")

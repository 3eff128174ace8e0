from uni import *

@case("C03", quick=1500, tmo=20)
def finite_in_range(rng, k):
    name, mk = CONF[k % len(CONF)]
    n = int(rng.integers(2, 40)) if k % 3 else int(rng.integers(2, 8))
    x = sample(rng, n=n)
    m = k // len(CONF) % 12
    if m == 0: x = np.full(n, rng.choice([0., 1.25, -3e8, 1e-300]))
    elif m == 1: x = np.concatenate([np.full(n // 2 + 1, 2.5), rng.normal(size=n - n // 2 - 1)])     # exact fit
    elif m == 2: x = np.where(np.arange(n) < n // 2, 1., 7.)                                        # two values
    elif m == 3: x = x * 1e-9
    elif m == 4: x = x * 1e9
    elif m == 5: x[0] = 1e12
    elif m == 6: x = np.round(x, 0)
    elif m == 7: x = np.concatenate([np.full(n - n // 2, 0.3), 0.3 + np.arange(n // 2)])
    x = rng.permutation(x)
    e = mk().fit(x)
    lo, hi = x.min(), x.max(); tol = 1e-12 * max(abs(lo), abs(hi))
    req(finite(e.location), f"{name}: location not finite", got=e.location, x=x)
    req(np.ndim(e.scale) == 0 and finite(e.scale), f"{name}: scale not finite", got=e.scale, x=x)
    req(e.scale >= 0, f"{name}: negative scale", got=e.scale, x=x)
    req(lo - tol <= e.location <= hi + tol, f"{name}: location outside the data", got=e.location, x=x)

@case("C03", quick=300)
def missing(rng, k):
    name, mk = CONF[k % len(CONF)]
    x = sample(rng, nmin=3, nmax=30); y = x.copy()
    pos = rng.choice(len(x) + 1, size=int(rng.integers(1, 4)))
    y = np.insert(y, pos, np.nan)
    raises(ValueError, lambda: mk().fit(y), f"{name}: NaN not rejected")
    a, b = mk().fit(y, ignore_nan=True), mk().fit(x)
    eq(a.location, b.location, f"{name}: location ignoring NaN", rtol=1e-12, x=y); eq(a.scale, b.scale, f"{name}: scale ignoring NaN", rtol=1e-12, x=y)
    a = mk().fit(x, ignore_nan=True)
    eq(a.location, b.location, f"{name}: ignore_nan without NaN", rtol=1e-12); eq(a.scale, b.scale, f"{name}: ignore_nan without NaN", rtol=1e-12)
    raises(ValueError, lambda: mk().fit(x.reshape(-1, 1)), f"{name}: matrix not rejected")

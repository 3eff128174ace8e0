from uni import *
from robpy.utils.median import weighted_median
DN = {2: .399, 3: .994, 4: .512, 5: .844, 6: .611, 7: .857, 8: .669, 9: .872}

@case("C04", quick=1200, tmo=20)
def order_statistic(rng, k):
    n = int(rng.integers(2, 12)) if k % 2 else int(rng.integers(2, 60))
    x = sample(rng, n=n)
    if k % 7 == 0: x[: n // 2 + k % 2] = x[0]
    if k % 11 == 0: x = np.round(x, 1)
    if k % 13 == 0: x = np.sort(x)
    h = n // 2 + 1; q = h * (h - 1) // 2
    d = np.sort(np.abs(np.subtract.outer(x, x))[np.triu_indices(n, 1)])[q - 1]
    tol = 1e-12 * np.abs(x).max()
    cc, fc = [(False, False), (True, False), (False, True), (True, True)][k // 2 % 4]
    e = Qn(consistency_correction=cc, finite_correction=fc).fit(x)
    f = (2.219144 if cc else 1) * ((DN[n] if n <= 9 else n / (n + 1.4) if n % 2 else n / (n + 3.8)) if fc else 1)
    eq(e.scale, f * d, f"Qn(cc={cc},fc={fc}), n={n}, order statistic {q}", rtol=1e-12, atol=3 * tol, x=x)
    eq(e.location, np.median(x), "Qn location", rtol=1e-14)

@case("C04", quick=24, tmo=60)
def large(rng, k):
    n = int(rng.integers(100, 700)); x = sample(rng, n=n)
    h = n // 2 + 1; q = h * (h - 1) // 2
    d = np.partition(np.abs(np.subtract.outer(x, x))[np.triu_indices(n, 1)], q - 1)[q - 1]
    e = Qn(consistency_correction=False, finite_correction=False).fit(x)
    eq(e.scale, d, f"Qn, n={n}", rtol=1e-12, atol=3e-12 * np.abs(x).max())

@case("C04", quick=800, tmo=20)
def wmedian(rng, k):
    n = int(rng.integers(1, 30)); x = sample(rng, n=n) if k % 2 else rng.integers(-4, 5, size=n).astype(float)
    w = rng.integers(0, 6, size=n) if k % 3 else rng.integers(1, 3, size=n)
    if w.sum() == 0: w[0] = 1
    if k % 5 == 0: w[int(rng.integers(n))] = 40
    m = weighted_median(x.copy(), w.copy())
    req(np.any((x == m) & (w > 0)), "weighted median is not an observation of positive weight", got=m, x=x, w=w)
    req(2 * w[x < m].sum() <= w.sum() < 2 * w[x <= m].sum(), "weighted median: cumulative weight", got=m, x=x, w=w)

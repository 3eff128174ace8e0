from uni import *
from scipy.stats import chi2, gamma
from itertools import combinations

def h_of(n, alpha):
    m = n // 2 + 1
    if alpha is None: return m
    return max(int(alpha) if isinstance(alpha, int) and alpha != 1 else int(alpha * n), m)

@case("C05", quick=800)
def mcd(rng, k):
    n = int(rng.integers(3, 50)) if k % 2 else int(rng.integers(3, 12))
    x = generic(rng, n=n) if k % 3 else sample(rng, n=n)
    alpha = [None, .5, .6, .75, .9, .99, int(rng.integers(n // 2 + 1, n + 1))][k % 7]
    if alpha == n: alpha = None
    cc = bool(k // 7 % 2)
    e = UnivariateMCD(alpha=alpha, consistency_correction=cc).fit(x)
    h = h_of(n, alpha)
    if isinstance(alpha, int) and alpha == 1: raise Skip()
    if h == n:
        eq(e.location, x.mean(), "h=n: mean"); eq(e.scale, x.std(), "h=n: std"); return
    s = np.sort(x); v = np.array([s[i:i + h].var() for i in range(n - h + 1)])
    f = (h / n) / chi2.cdf(chi2.ppf(h / n, df=1), df=3) if cc else 1.
    rt = 1e-9 + 1e-13 * (np.abs(x).max() / (np.sqrt(v.min()) or 1)) ** 2 if v.min() > 0 else 1e-9
    tiny = 1e-24 * np.abs(x).max() ** 2
    req(abs(e.raw_variance_ - f * v.min()) <= rt * f * v.min() + tiny, "raw variance is not the smallest window variance times the factor", got=e.raw_variance_, best=f * v.min(), h=h, alpha=alpha, x=x)
    ok = [i for i in range(n - h + 1) if v[i] <= v.min() * (1 + rt) + tiny]
    req(any(close(e.raw_location_, s[i:i + h].mean(), 1e-9) for i in ok), "raw location is not the mean of an optimal window", got=e.raw_location_, x=x, h=h)
    eq(e.raw_scale_, np.sqrt(e.raw_variance_), "raw scale")
    if n <= 10 and k % 4 == 0:
        b = min(np.var(c) for c in combinations(x, h))
        req(v.min() <= b * (1 + 1e-9) + tiny, "window scan misses a better subset")
    if e.raw_variance_ <= tiny: return
    d = (x - e.raw_location_) ** 2 / e.raw_variance_; cut = chi2.ppf(.975, 1)
    if np.min(np.abs(d - cut)) < 1e-9: raise Skip()
    y = x[d < cut]; delta = len(y) / n
    g = delta / gamma.cdf(chi2.ppf(delta, df=1) / 2, a=1.5) if cc else 1.
    eq(e.location, y.mean(), "reweighted location", rtol=1e-9, x=x, alpha=alpha)
    eq(e.scale ** 2, y.var() * g, "reweighted variance", rtol=1e-7, atol=tiny, x=x, alpha=alpha)
    eq(e.variance_, e.scale ** 2, "variance_ vs scale", rtol=1e-9)

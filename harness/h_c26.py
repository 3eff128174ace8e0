from lib import *
from robpy.univariate.adjusted_boxplot import adjusted_boxplot
from statsmodels.stats.stattools import medcouple
import matplotlib.pyplot as plt

def mc(x):
    """medcouple from its definition (n <= 60)"""
    x = np.sort(x); n = len(x); m = np.median(x); 
    if x[0] == x[-1]: return 0.0
    up, lo = x[x >= m][::-1], x[x <= m]; nz = int((x == m).sum()); out = []
    U = np.where(x >= m)[0][::-1]; L = np.where(x <= m)[0]; ties = np.where(x == m)[0]; q = len(ties)
    for i in U:
        for j in L:
            if x[i] == m and x[j] == m: a, b = list(ties[::-1]).index(i), list(ties).index(j); out.append(np.sign((q - 1) - a - b) if False else float(np.sign(q - 1 - a - b)))
            else: out.append(((x[i] - m) - (m - x[j])) / (x[i] - x[j]))
    return float(np.median(out))
def oracle(x, c):
    q1, q3, m = np.percentile(x, 25), np.percentile(x, 75), np.median(x); i = q3 - q1; a, b = (-4, 3) if c >= 0 else (-3, 4)
    return m, q1, q3, max(x.min(), q1 - 1.5 * np.exp(a * c) * i), min(x.max(), q3 + 1.5 * np.exp(b * c) * i)
def tup(b): return b.median, b.q1, b.q3, b.lower_whisker, b.upper_whisker

@case("C26", quick=400)
def columns(rng, k):
    p = int(rng.integers(1, 5)); n = int(rng.integers(3, 60)); X = np.column_stack([sample(rng, n=n) for _ in range(p)])
    if k % 4 == 0: X[:, -1] = rng.gamma(.7, size=n) * rng.choice([-1, 1])
    B = adjusted_boxplot(X, plot=False); req(len(B) == p, "one box per column", got=len(B))
    for j, b in enumerate(B):
        x = X[:, j]; m, q1, q3, lw, uw = tup(b); t = 1e-12 * (np.abs(x).max() + 1e-300)
        req(x.min() - t <= lw <= q1 + t and q1 <= m + t and m <= q3 + t and q3 - t <= uw <= x.max() + t, "order of the statistics", stats=(x.min(), lw, q1, m, q3, uw, x.max()), x=x)
        eq(tup(b), oracle(x, float(medcouple(x))), "statistics do not follow the adjusted fences", rtol=1e-10, x=x); s, = adjusted_boxplot(x, plot=False); eq(tup(s), tup(b), "a column on its own", rtol=1e-12, x=x)

@case("C26", quick=150)
def definition(rng, k):
    x = generic(rng, nmin=5, nmax=40); c = mc(x)
    if abs(c) < 1e-9: raise Skip()
    b, = adjusted_boxplot(x, plot=False); eq(tup(b), oracle(x, c), "statistics do not follow the fences with the medcouple of the column", rtol=1e-8, x=x, medcouple=c)

@case("C26", quick=100)
def containers(rng, k):
    n = int(rng.integers(5, 40)); p = int(rng.integers(1, 4)); X = np.column_stack([sample(rng, n=n) for _ in range(p)]); A = [tup(b) for b in adjusted_boxplot(X, plot=False)]; ix = rng.permutation(n)
    D = pd.DataFrame(X, index=ix, columns=[f"c{j}" for j in range(p)][::-1]); eq([tup(b) for b in adjusted_boxplot(D, plot=False)], A, "data frame", rtol=0, X=X); eq(tup(adjusted_boxplot(pd.Series(X[:, 0], index=ix, name="s"), plot=False)[0]), A[0], "series", rtol=0)
    q = rng.permutation(n); eq([tup(b) for b in adjusted_boxplot(X[q], plot=False)], A, "order of the observations", rtol=1e-9, X=X)
    if k % 4 == 0:
        f, ax = plt.subplots(); B = adjusted_boxplot(X, plot=True, ax=ax); eq([tup(b) for b in B], A, "plotting changes the statistics", rtol=0); lab = [t.get_text() for t in ax.get_xticklabels()]; req(lab == [str(j) for j in range(p)], "labels", got=lab); plt.close("all")
        f, ax = plt.subplots(); adjusted_boxplot(D, plot=True, ax=ax); lab = [t.get_text() for t in ax.get_xticklabels()]; req(lab == list(D.columns), "labels", got=lab); plt.close("all")
    if k % 4 == 1: # left-skewed is the mirror image of right-skewed
        x = rng.gamma(.8, size=n); a, = adjusted_boxplot(x, plot=False); b, = adjusted_boxplot(-x, plot=False); eq((-b.median, -b.q3, -b.q1, -b.upper_whisker, -b.lower_whisker), tup(a), "mirrored data", rtol=1e-9, x=x)

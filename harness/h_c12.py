from reg import *
from scipy.stats import norm
from sklearn.linear_model import LinearRegression
from robpy.regression import FastLTSRegression as F
import robpy.regression.lts as L

def corr(p, n, a, rew):
    """Pison, Van Aelst & Willems (2002), constants of robustbase ltsReg"""
    T = {(1, False): ((.630869217886906, .650789250442946), (.565065391014791, 1.03044199012509)), (1, True): ((1.58609654199605, 1.46340162526468), (.391653958727332, 1.03167487483316)),
         (0, False): ((.262024211897096, .604756680630497), (-.351584646688712, 1.01646567502486)), (0, True): ((1.11098143415027, 1.5182890270453), (-.66046776772861, .88939595831888))}
    if p <= 1:
        (u, v), (s, t) = T[p, rew]; f5 = 1 - np.exp(u) / n ** v; f8 = 1 - np.exp(s) / n ** t
    else:
        e5 = [[-.773365715932083, 2.02013996406346, 3], [-.337571678986723, 2.02037467454833, 5]] if rew else [[-.746945886714663, .56264937192689, 3], [-.535478048924724, .543323462033445, 5]]
        g8 = [[-.474174840843602, 1.39681715704956, 3], [-.276640353112907, 1.42543242287677, 5]] if rew else [[-.458580153984614, 1.12236071104403, 3], [-.267178168108996, 1.1022478781154, 5]]
        f = []
        for m in (np.array(e5), np.array(g8)):
            c = np.linalg.solve(np.column_stack([np.ones(2), -np.log(m[:, 2] * p ** 2)]), np.log(-m[:, 0] / p ** m[:, 1])); f.append(1 - np.exp(c[0]) / n ** c[1])
        f5, f8 = f
    r = f5 + (f8 - f5) / .375 * (a - .5) if a <= .875 else f8 + (1 - f8) / .125 * (a - .875)
    return 1 / (np.sqrt(r) if p == 0 else r)

@case("C12", quick=200)
def factors(rng, k):
    p, n = int(rng.integers(0, 9)), int(rng.integers(12, 400)); a = [.5, .875, 1.0, .75, .9, float(rng.uniform(.5, 1))][k % 6]
    for rew, f in ((False, L.get_correction_factor), (True, L.get_correction_factor_reweighting)):
        e = corr(p, n, a, rew)
        if np.isfinite(e): eq(f(p=p, n=n, alpha=a), e, f"{f.__name__}(p={p}, n={n}, alpha={a})", rtol=1e-10)
        raises(ValueError, lambda: f(p=p, n=n, alpha=.49), "alpha below .5"); raises(ValueError, lambda: f(p=p, n=n, alpha=1.01), "alpha above 1")

def loss(b, X, y, i): return np.mean((y[i] - pred(b, X[i])) ** 2)

@case("C12", quick=200)
def c_step(rng, k):
    if not hasattr(F, "_apply_C_step"): raise Skip()
    X, y = data(rng); n, p = X.shape; h = int(rng.integers((n + p + 1) // 2, n + 1)); Y = y.reshape(-1, 1)
    s = rng.choice(n, p + 1, replace=False); m = LinearRegression().fit(X[s], Y[s]); b = coefs(m); prev = None
    for _ in range(6):
        i, m2 = F._apply_C_step(m, X, Y, h); i = np.asarray(i)
        req(len(i) == h and len(set(i.tolist())) == h, "C-step subset size", got=len(i), h=h)
        r = (y - pred(b, X)) ** 2; o = np.ones(n, bool); o[i] = False
        if o.any(): req(r[i].max() <= r[o].min() * (1 + 1e-9) + 1e-16 * np.abs(y).max() ** 2, "C-step subset does not hold the h smallest squared residuals", subset=i, r=r)
        b2 = coefs(m2); eq(pred(b2, X), pred(ls(X[i], y[i]), X), "C-step model is not least squares on its subset", rtol=1e-6)
        l = loss(b2, X, y, i); eq(F._get_loss_value(X, Y, i, m2), l, "loss value", rtol=1e-7, atol=1e-14 * np.abs(y).max() ** 2)
        if prev is not None: req(l <= prev * (1 + 1e-9) + 1e-15, "trimmed loss increased", prev=prev, loss=l)
        prev, m, b = l, m2, b2

@case("C12", quick=100, tmo=60)
def raw(rng, k):
    X, y = data(rng); n, p = X.shape; a = [.5, .6, .75, .9, 1.0, float(rng.uniform(.5, 1))][k % 6]; N = [6, 20, 40][k % 3]; B = [2, 5, 10][k % 3]; seen = []
    old = F.__dict__.get("_apply_C_steps_untill_convergence")
    if old is not None:
        def rec(*A, **K): r = old.__func__(*A, **K); seen.append(r); return r
        F._apply_C_steps_untill_convergence = staticmethod(rec)
    try: e = F(alpha=a, n_initial_subsets=N, n_best_models=B, reweighting=False, random_state=int(rng.integers(1000))).fit(X, y, verbosity=50)
    finally:
        if old is not None: F._apply_C_steps_untill_convergence = old
    i = np.asarray(e.best_h_subset); b = coefs(e.model); t = 1e-12 * np.abs(y).max() ** 2
    eq(pred(b, X), pred(ls(X[i], y[i]), X), "raw LTS is not least squares on its subset", rtol=1e-6)
    l = loss(b, X, y, i)
    eq(e.scale, corr(p, n, a, False) * np.sqrt(l), "raw LTS scale", rtol=1e-6)
    eq(e.predict(X).ravel(), pred(b, X), "predict", rtol=1e-9)
    j = np.argsort(np.abs(y - pred(b, X)))[:len(i)]; b2 = ls(X[j], y[j])
    req(loss(b2, X, y, j) >= l * (1 - 1e-7) - t, "a further C-step improves the reported fit", loss=l, after=loss(b2, X, y, j), X=X, y=y)
    for r in seen:
        lr = loss(coefs(r[0]), X, y, np.asarray(r[1])); req(l <= lr * (1 + 1e-8) + t, "another refined candidate has a smaller loss", reported=l, other=lr)
    if seen: req(len(seen) >= min(B, N), "number of refined candidates", got=len(seen), expected=min(B, N))

@case("C12", quick=100, tmo=60)
def reweighted(rng, k):
    X, y = data(rng, nmin=20); n, p = X.shape; a = [.5, .75, 1.0, .9][k % 4]; kw = dict(alpha=a, n_initial_subsets=20, n_best_models=4, random_state=k)
    e0 = F(reweighting=False, **kw).fit(X, y, verbosity=50); e = F(**kw).fit(X, y, verbosity=50)
    r = y - pred(coefs(e0.model), X); z = np.abs(r / np.std(r)); cut = norm.ppf(.9875)
    if np.min(np.abs(z - cut)) < 1e-6: raise Skip()
    i = z <= cut; b = ls(X[i], y[i]); eq(pred(coefs(e.model), X), pred(b, X), "reweighted LTS is not least squares on the observations within the cutoff", rtol=1e-6, X=X, y=y)
    eq(e.scale, corr(p, n, a, True) * np.sqrt(np.mean((y - pred(b, X))[i] ** 2)), "reweighted LTS scale", rtol=1e-6, X=X, y=y)
    eq(e.predict(X[:3]).ravel(), pred(b, X[:3]), "predict", rtol=1e-6)

from multi import *
from uni import CONF
import reg
from robpy.preprocessing import RobustScaler, RobustPowerTransformer, DataCleaner
from robpy.regression import FastLTSRegression, MMRegression, SRegression
from robpy.utils.rho import Huber, TukeyBisquare

def check(nm, make, fit, results, A, B, use=None):
    """fitting on A and then on B gives the results of a fresh fit on B; configuration untouched; using the fit changes nothing"""
    e = make(); c0 = config(e)
    if getattr(e, "n_components", 0) is None: fixed = True
    ok = True
    try: fit(e, A)
    except ValueError: ok = False    # refused data must not leave traces either
    req(config(e) == c0, f"{nm}: fitting changes the configuration", before=c0, after=config(e))
    if use and ok:
        try: use(e, A)
        except ValueError: pass
    fit(e, B); f = make(); fit(f, B); r, s = results(e, B), results(f, B)
    req(config(e) == c0, f"{nm}: fitting changes the configuration", before=c0, after=config(e)); same(r, s, f"{nm}: fit on other data before changes the results", rtol=1e-12)
    if use: use(e, A); same(results(e, B), s, f"{nm}: use between fit and results changes them", rtol=1e-12)

@case("C23", quick=110)
def univariate(rng, k):
    nm, mk = CONF[k % len(CONF)]; A, B = generic(rng), generic(rng)
    if k % 3 == 1: A = np.full(9, 2.5)
    check(nm, mk, lambda e, X: e.fit(X), lambda e, X: dict(location=e.location, scale=e.scale, h=np.array(float(getattr(e, "h_size", 0) or 0))), A, B)

@case("C23", quick=100)
def scaler(rng, k):
    nm, mk = CONF[k % len(CONF)]; p = int(rng.integers(1, 4)); A, B = [np.column_stack([generic(rng, n=n) for _ in range(q)]) for n, q in ((12, p), (25, p))]
    if k % 4 == 3: A = np.column_stack([A, A]) * 3
    kw = [{}, dict(with_centering=False), dict(with_scaling=False)][k % 3]; check(f"RobustScaler({nm},{kw})", lambda: RobustScaler(mk(), **kw), lambda e, X: e.fit(X), lambda e, X: dict(l=e.locations_, s=e.scales_, t=e.transform(X), i=e.inverse_transform(X)), A, B, lambda e, X: (e.transform(X[:, :len(e.locations_)] if X.shape[1] >= len(e.locations_) else X), e.inverse_transform(X[:, :len(e.locations_)])))
    q = mk(); RobustScaler(q).fit(A); x = generic(rng); a = q.fit(x); b = mk().fit(x); req(a.location == b.location and a.scale == b.scale, f"{nm} remembers its use inside a scaler")

@case("C23", quick=40, tmo=60)
def power(rng, k):
    kw = [dict(method="auto"), dict(method="yeojohnson"), dict(method="boxcox"), dict(standardize=False), dict(method="auto", standardize=False)][k % 5]; pos = np.exp(rng.normal(size=30)); neg = rng.normal(size=25) ** 3; A, B = [(pos, neg), (neg, pos), (pos * 100, pos + 1)][k // 5 % 3]
    if kw.get("method") == "boxcox": A, B = (neg, pos) if k % 2 else (pos * 10, pos ** 2)
    def R(e, X): return {a: np.array(float(getattr(e, a))) for a in ("lambda_rew",)} | dict(t=e.transform(X), i=e.inverse_transform(e.transform(X)), boxcox=np.array(float(e.method_ == "boxcox")))
    check(f"RobustPowerTransformer({kw})", lambda: RobustPowerTransformer(**kw), lambda e, X: e.fit(X), R, A, B, lambda e, X: e.inverse_transform(e.transform(np.abs(X) + .1)))

@case("C23", quick=40)
def cleaner(rng, k):
    def D(n, seed):
        r = np.random.default_rng(seed); X = pd.DataFrame({"a": r.normal(size=n), "b": r.normal(size=n), "c": r.choice([1., 2.], size=n), "d": np.arange(n, dtype=float), "e": r.normal(size=n)})
        X.loc[r.random(n) < .3 * (seed % 3), "b"] = np.nan
        if seed % 2: X["e"] = "txt"
        if seed % 5 == 0: X.iloc[2, :3] = np.nan; X["a"] = X["a"] * 1e-15
        return X
    s = int(rng.integers(1000)); A, B = D(30, s), D(40, s + 1 + k % 4); R = lambda e, X: {}
    for cl in ("automatic", "rows", "columns"):
        e = DataCleaner(clean_na_first=cl, min_unique_values=3)
        f = type(e)(clean_na_first=cl, min_unique_values=3); c0 = config(e)
        try: e.fit(A).transform(A)
        except ValueError: pass
        def rep(d, a):
            try: return getattr(d, a)
            except Exception as x: return type(x).__name__
        g = type(e)(clean_na_first=cl, min_unique_values=3); e.fit(B); g.fit(B)
        for a in ("dropped_columns", "dropped_rows"): req(rep(e, a) == rep(g, a), f"DataCleaner.{a} after fit reports earlier data", got=rep(e, a), expected=rep(g, a))
        o1 = e.fit(B).transform(B); o2 = f.fit(B).transform(B); req(o1.equals(o2), "DataCleaner remembers earlier data"); req(e.dropped_columns == f.dropped_columns and e.dropped_rows == f.dropped_rows, "DataCleaner reports dropped items of earlier data", got=(e.dropped_columns, e.dropped_rows), expected=(f.dropped_columns, f.dropped_rows)); req(config(e) == c0, "DataCleaner configuration")
        
        if set(B.columns) <= set(A.columns): e.transform(A.iloc[:20])
        o3 = e.transform(B); req(o3.equals(o2) and e.dropped_columns == f.dropped_columns and e.dropped_rows == f.dropped_rows, "DataCleaner.transform remembers earlier data")

@case("C23", quick=108, tmo=90)
def covariance(rng, k):
    nm, mk = COV[k % len(COV)]; B = cdata(rng, nm, nan=k // 18 % 2 == 1); A = cdata(rng, nm, p=B.shape[1] + k % 2)
    if nm.startswith(("CellMCD", "Initial")) and k % 3 == 0: A = A[:int(len(A) * .6)]
    e0 = fitc(mk, B); check(nm, mk, lambda e, X: e.fit(X), lambda e, X: cres(e), A, B)

@case("C23", quick=42, tmo=90)
def pca(rng, k):
    nm, mk = PCA[k % len(PCA)]; p = int(rng.integers(3, 6)); A, B = pdata(rng, p=p), pdata(rng, p=p); fixed = mk().n_components is not None
    def R(e, X): return pres(e, X)
    if fixed: check(nm, mk, lambda e, X: e.fit(X), R, A, B, lambda e, X: (e.transform(X), e.project(X)))
    else:
        e = mk(); c0 = config(e); e.fit(A); req(config(e) == c0, f"{nm}: configuration"); e.n_components = None; e.fit(B); f = mk().fit(B); same(pres(e, B), pres(f, B), f"{nm}: fit on other data before"); e.transform(A); e.project(A); same(pres(e, B), pres(f, B), f"{nm}: use changes the fit")

@case("C23", quick=32, tmo=90)
def ddc(rng, k):
    nm, mk = DDCS[k % len(DDCS)]; A, B = ddata(rng), ddata(rng); check(nm, mk, lambda e, X: e.fit(X), lambda e, X: dres(e) | dict(imp=e.impute(X).values.astype(float)), A, B, lambda e, X: X.shape[1] == len(e.location_) and (e.predict(X), e.impute(X), e.predict(X, rowwise=True)))

@case("C23", quick=48, tmo=90)
def regression(rng, k):
    A = reg.data(rng); B = reg.data(rng); fast_s = lambda **kw: SRegression(n_initial_subsets=25, **kw)
    M = [("FastLTS", lambda: FastLTSRegression(n_initial_subsets=20)), ("FastLTS(.75,raw)", lambda: FastLTSRegression(alpha=.75, n_initial_subsets=20, reweighting=False)), ("MM", lambda: MMRegression(initial_estimator=fast_s())), ("MM(LTS,Huber)", lambda: MMRegression(initial_estimator=FastLTSRegression(n_initial_subsets=15), rho=Huber(b=1.3))), ("S", fast_s), ("S(no intercept)", lambda: fast_s(fit_intercept=False))]
    nm, mk = M[k % len(M)]
    def fit(e, D):
        kw = {} if nm.startswith("MM") else dict(verbosity=50)
        e.fit(*D, **kw)
    def R(e, D): return dict(pred=np.asarray(e.predict(D[0])).ravel(), scale=np.array(float(e.scale)))
    check(nm, mk, fit, R, A, B, lambda e, D: D[0].shape[1] == B[0].shape[1] and e.predict(D[0]))

from lib import *
from robpy.preprocessing import DataCleaner
from robpy.preprocessing.data_cleaner import DataCleaner

def frame(rng, k):
    n, p = int(rng.integers(5, 30)), int(rng.integers(3, 9))
    if k % 9 == 0: n, p = 3 + k % 2, 18
    d = {}
    lab = [f"v{j}" for j in range(p)] if k % 2 else [10 * j + 3 for j in range(p)]
    for j in range(p):
        t = int(rng.integers(0, 14)); c = rng.normal(size=n)
        if t == 0: c = pd.Series([["a", "b", "c", "dd", "e"][i % 5] + str(i) for i in range(n)], dtype=object).values
        elif t == 1: c = rng.choice([1., 2.], size=n)
        elif t == 2: c = rng.choice([1., 2., 5.], size=n)
        elif t == 3: c = np.full(n, 2.); c[: min(3, n // 2 - 1) if n > 6 else 1] = rng.normal(size=min(3, n // 2 - 1) if n > 6 else 1)
        elif t == 4: c = np.arange(n).astype([float, int][int(rng.integers(2))])
        elif t == 5: c = np.arange(1, n + 1)
        elif t == 6: c[rng.random(n) < .55] = np.nan
        elif t == 7: c[rng.random(n) < .3] = [np.inf, -np.inf][int(rng.integers(2))]
        elif t == 8: c = (rng.normal(size=n) * 1e-13)
        elif t == 9: c = rng.integers(0, 50, size=n)
        elif t == 10: c = np.array([1., 2., 3., 4.])[np.arange(n) % 4]
        d[lab[j]] = c
    X = pd.DataFrame(d, index=[f"r{i}" for i in range(n)] if k % 3 == 0 else (np.arange(n)[::-1] * 2 if k % 3 == 1 else None))
    num = [c for c in X.columns if X[c].dtype.kind == "f"]
    for i in rng.choice(n, size=int(rng.integers(0, 3)), replace=False):
        for c in num:
            if rng.random() < .8: X.loc[X.index[i], c] = [np.nan, np.inf][int(rng.integers(2))]
    return X

def reference(X, T, fc, fr, mu, ms, first):
    n, p = X.shape
    num = lambda v: isinstance(v, (int, float, np.integer, np.floating, bool, np.bool_))
    nonnum = [c for c in X if any(not num(v) for v in X[c] if not (isinstance(v, float) and np.isnan(v)))]
    disc = [c for c in X if len({v for v in X[c] if not (isinstance(v, float) and np.isnan(v))}) <= mu]
    bad = []
    for c in X:
        if c in nonnum or c in disc: continue
        v = X[c].to_numpy(float); v = v[np.isfinite(v)]
        if len(v) == 0: continue
        if np.median(np.abs(v - np.median(v))) <= ms: bad.append(c)
    n, p = T.shape
    rown = [c for c in T if c not in nonnum and all(float(v) == i for i, v in enumerate(T[c]))]
    R = [c for c in T if c not in nonnum + disc + bad]
    M = np.array([[not np.isfinite(float(v)) for v in T[c]] for c in R]).T.reshape(n, len(R))
    if first == "automatic": first = "columns" if p >= 5 * n else "rows"
    cols, rows = list(range(len(R))), list(range(n))
    def do_rows():
        return [i for i in range(n) if len(cols) and np.mean(M[i, cols]) >= fr]
    def do_cols():
        return [j for j in range(len(R)) if len(rows) and np.mean(M[rows, j]) >= fc]
    if first == "rows":
        dr = do_rows(); rows = [i for i in rows if i not in dr]; dc = do_cols()
    else:
        dc = do_cols(); cols = [j for j in cols if j not in dc]; dr = do_rows()
    return nonnum, disc, bad, rown, [R[j] for j in dc], [T.index[i] for i in dr]

@case("C10", quick=400)
def clean(rng, k):
    X = frame(rng, k)
    if k % 7 == 6: X.index = [0] * len(X) if False else X.index
    kw = [dict(), dict(max_missing_frac_cols=.3, max_missing_frac_rows=.4), dict(min_unique_values=4), dict(clean_na_first="columns"), dict(clean_na_first="rows", max_missing_frac_cols=.25), dict(min_abs_scale=.3), dict(max_missing_frac_rows=.25, clean_na_first="columns")][k % 7]
    c = DataCleaner(**kw); 
    T = X
    try: out = c.fit(X).transform(T)
    except ValueError as e:
        if "least" in str(e): raise Skip()
        raise
    ref = reference(X, T, kw.get("max_missing_frac_cols", .5), kw.get("max_missing_frac_rows", .5), kw.get("min_unique_values", 3), kw.get("min_abs_scale", 1e-12), kw.get("clean_na_first", "automatic"))
    got = (c.non_numeric_cols, c.cols_discrete, c.cols_bad_scale, c.cols_rownumbers, c.cols_missings, c.rows_missings)
    for nm, a, b in zip(("non-numeric", "discrete", "bad scale", "row numbers", "missing columns", "missing rows"), got, ref):
        req(list(a) == list(b), f"DataCleaner({kw}): {nm} dropped", got=list(a), expected=list(b), X=X)
    req(c.dropped_rows == {"rows_missings": c.rows_missings} and [v for v in c.dropped_columns.values()] == [c.non_numeric_cols, c.cols_rownumbers, c.cols_discrete, c.cols_bad_scale, c.cols_missings], "dropped_columns/dropped_rows report")
    dropc = set(sum((list(v) for v in ref[:5]), [])); dropr = set(ref[5])
    req(list(out.columns) == [v for v in T.columns if v not in dropc], f"DataCleaner({kw}): remaining columns", got=list(out.columns), X=X)
    req(list(out.index) == [i for i in T.index if i not in dropr], f"DataCleaner({kw}): remaining rows", got=list(out.index), X=X)
    for v in out.columns:
        a = T.loc[out.index, v].to_numpy(float); b = out[v].to_numpy(float)
        req(np.array_equal(np.where(np.isfinite(a), a, np.nan), b, equal_nan=True), f"cells of column {v} changed", before=a, after=b)

@case("C10", quick=40)
def errors(rng, k):
    X = frame(rng, 1)
    raises(ValueError, lambda: DataCleaner(clean_na_first="foo").fit(X).transform(X), "unknown clean_na_first")
    raises(ValueError, lambda: DataCleaner(min_n_rows=len(X) + 1).fit(X).transform(X), "too few rows"); DataCleaner(min_n_rows=len(X)).fit(X).transform(X)
    c = DataCleaner()
    from sklearn.exceptions import NotFittedError
    raises(NotFittedError, lambda: c.dropped_columns, "dropped_columns before fit"); raises(NotFittedError, lambda: c.dropped_rows, "dropped_rows before transform")

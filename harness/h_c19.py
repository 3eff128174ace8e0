from multi import *
from scipy.stats import chi2

@case("C19", quick=100, tmo=60)
def training(rng, k):
    name, mk = DDCS[k % len(DDCS)]; X = ddata(rng, nan=k % 5 != 0); X0 = X.copy(); d = mk(); q = d.chi2_quantile; d.fit(X); R = d.standardized_residuals_
    c = np.sqrt(chi2.ppf(q, 1)); req(np.array_equal(d.cellwise_outliers_, np.abs(R) > c), f"{name}: flags are not |residual| > cutoff", X=X0.values)
    Z = X.replace([np.inf, -np.inf], np.nan).values; req(np.array_equal(np.isnan(R), np.isnan(Z)), f"{name}: a residual is missing exactly for missing cells")
    F, S = d.predict(X); req(np.array_equal(F, d.cellwise_outliers_), f"{name}: predict does not reproduce the flags", X=X0.values); eq(S, R, f"{name}: predict does not reproduce the residuals", rtol=1e-9, X=X0.values)
    req(np.array_equal(d.predict(X, rowwise=True), d.row_outliers_), f"{name}: predict does not reproduce the row flags", X=X0.values)
    P = d.rescaled_predictions_; eq((Z - P) / np.array(d.scale_) / d.residual_scales, R, f"{name}: residuals are not the scaled differences from the predictions", rtol=1e-8)
    for out in (True, False):
        I = d.impute(X, impute_outliers=out); m = np.isnan(Z) | (d.cellwise_outliers_ if out else False)
        req(isinstance(I, pd.DataFrame) and I.index.equals(X.index) and I.columns.equals(X.columns), f"{name}: impute keeps index and columns"); V = I.values.astype(float)
        req(np.array_equal(V[~m], Z[~m]), f"{name}: impute(impute_outliers={out}) changes other cells", X=X0.values); req(np.abs(V[m] - P[m]).max(initial=0) <= .5e-3 + 1e-9 * np.abs(P).max(), f"{name}: imputed values are not the predictions to three decimals", got=V[m], exp=P[m], X=X0.values)
    req(X.equals(X0), f"{name}: data changed")

@case("C19", quick=100, tmo=60)
def new_data(rng, k):
    name, mk = DDCS[k % len(DDCS)]; X = ddata(rng); n, p = X.shape; d = mk().fit(X); Y = ddata(rng, p=p); c = np.sqrt(chi2.ppf(d.chi2_quantile, 1))
    F, S = d.predict(Y); req(np.array_equal(F, np.abs(S) > c), f"{name}: flags of new data"); Z = Y.replace([np.inf, -np.inf], np.nan).values
    i = rng.permutation(n)[: int(rng.integers(1, n))]; F1, S1 = d.predict(X.iloc[i]); req(np.array_equal(F1, d.cellwise_outliers_[i]), f"{name}: flags of part of the training data", X=X.values, rows=i); eq(S1, d.standardized_residuals_[i], f"{name}: residuals of part of the training data", rtol=1e-9)
    req(np.array_equal(d.predict(X.iloc[i], rowwise=True), d.row_outliers_[i]), f"{name}: row flags of part of the training data")
    I = d.impute(Y); m = np.isnan(Z) | F; V = I.values.astype(float); req(np.array_equal(V[~m], Z[~m]) and I.index.equals(Y.index) and I.columns.equals(Y.columns), f"{name}: impute of new data changes other cells"); req(finite(V), f"{name}: impute leaves missing cells")
    P = Z - S * d.residual_scales * np.array(d.scale_); g = m & ~np.isnan(Z); req(np.abs(V[g] - P[g]).max(initial=0) <= .5e-3 + 1e-7 * np.nanmax(np.abs(Z)), f"{name}: imputed outlying cells are not the predictions", got=V[g], exp=P[g])
    I2 = d.impute(Y, impute_outliers=False).values; mm = np.isnan(Z); req(np.array_equal(I2[~mm], Z[~mm]), f"{name}: impute without outliers changes observed cells"); eq(I2[mm], V[mm], f"{name}: missing cells imputed alike", rtol=0)

@case("C19", quick=40)
def uncorrelated(rng, k):
    """a column correlated with nothing is predicted by its center; a column below min_correlation is not used"""
    n = 50; x = rng.normal(size=n); X = pd.DataFrame({"a": x, "b": x + .05 * rng.normal(size=n), "c": rng.normal(size=n)}); d = DDC(min_correlation=.8).fit(X)
    if np.abs(d.robust_correlation_[2, :2]).max() >= .8: raise Skip()
    req(np.all(d.predictions_[:, 2] == 0), "a column without correlated columns is not predicted by its location", X=X.values); X2 = X.copy(); X2["c"] = X["c"] + 500 * (rng.random(n) < .1)
    a = d.predict(X)[1][:, :2]; b = d.predict(X2)[1][:, :2]; eq(b, a, "an uncorrelated column changes the residuals of other columns", rtol=1e-12)

@case("C19", quick=24)
def refusals(rng, k):
    X = ddata(rng); p = X.shape[1]; d = DDC()
    raises(ValueError, lambda: d.predict(X), "predict before fit"); raises(ValueError, lambda: d.impute(X), "impute before fit"); raises(ValueError, lambda: d.cellmap(X), "cellmap before fit")
    S = X.copy(); S["txt"] = "a"; raises(ValueError, lambda: DDC().fit(S), "fit on non-numeric data")
    d = DDC().fit(X); W = pd.concat([X, X.iloc[:, :1]], axis=1)
    for nm, f in (("predict", d.predict), ("rowwise predict", lambda A: d.predict(A, rowwise=True)), ("impute", d.impute), ("impute of missing cells", lambda A: d.impute(A, impute_outliers=False))):
        raises(ValueError, lambda: f(W), f"{nm} with too many columns"); raises(ValueError, lambda: f(X.iloc[:, :-1]), f"{nm} with too few columns")
        T = X.copy(); T[X.columns[k % p]] = "a"; raises(ValueError, lambda: f(T), f"{nm} with a text column")

"""C19: flags, residuals, predictions and imputations of the detecting-deviating-cells detector, function by function"""
from tform import *
import math
npm = lambda d, nm: d.handlers["numpy." + nm]
class ILoc:
    def __init__(self, f): self.f = f
    def __getitem__(self, k):
        f = self.f; k = k if isinstance(k, tuple) else (k,); r = f.data[k]
        return FrameT(r, "idx" if isinstance(k[0], slice) else None, f.columns_ if len(r.shape_) == 2 else None)
def frames(d):
    """pandas: positional selection, labels carried along, infinities replaced by missing values (an entry is a number, infinite or missing)"""
    H = d.handlers; H["frame.iloc"] = lambda f: ILoc(f)
    fin = lambda p: p if isconst(p) else of(mk("finite", p)) if False else noinf(p)
    def replace(f, what, by=None, **k):
        I, J = P_(float("inf")), scale(P_(float("inf")), -1); vals = [P_(x) for x in what]
        if sorted(x.id for x in vals) != sorted((I.id, J.id)) or "nan" not in show(P_(by)): raise Unsupported(f"replace of other values {[show(x) for x in vals]} {show(P_(by))}")
        return f.wrap(A(f.data.shape_, noinf(f.data.body), f.data.dt))
    H["frame.replace"] = replace; H["frame.select_dtypes"] = lambda f, include=None, **k: (f if not d.textcols else FrameT(A((f.data.shape_[0], f.data.shape_[1] - ONE), f.data.body), f.index_, None))
    H["frame.round"] = lambda f, k=0: f.wrap(lift(lambda p: fun("round", p, const(k)), f.data))
    d.textcols = False
def noinf(p):
    """missing where infinite"""
    if len(p.t) == 1 and p.t[0][1] == 1 and len(p.t[0][0]) == 1 and tdom._tab[p.t[0][0][0][0]].kind == "f" and tdom._tab[p.t[0][0][0][0]].args[0] == "noinf": return p
    return fun("noinf", p, nan=True)
def run(E):
    M = "robpy.outliers.ddc"
    def setup(d, m, fitted=True):
        frames(d); n, p = d.int("n", 3), d.int("p", 2); N, P = P_(n), P_(p); X = FrameT(A((N, P), sym("xn", KV[0], KV[1], nan=True)), "idx", "cols"); o = m.DDC(chi2_quantile=0.99); o.cutoff = R_(sym("cutoff", pos=True))
        ob = lambda nm, v, sh, **k: A(sh, sym(nm, P_(d.opaque(nm, v.data if isinstance(v, FrameT) else v)), *KV[:len(sh)], **k))
        o._get_predicted_values = lambda U: ob("rawpred", U, (N, P)); o._robust_correlation = lambda U, verbose=False: ob("corr", U, (P, P)); o._get_slopes = lambda U: ob("slopes", U, (P, P))
        def fs(X_): o.location_, o.scale_ = ob("loc", X_, (P,)), ob("scl", X_, (P,), pos=True)
        o._fit_scaler = fs; o._check_data_conditions = lambda X: None; return n, p, N, P, X, o
    def state(d, o, N, P):
        """any fitted detector"""
        o.location_, o.scale_, o.deshrinkage_, o.residual_scales = (A((P,), sym(x, KV[0], pos=x[0] == "s")) for x in ("location_", "scale_", "deshrinkage_", "sresid")); o.cellwise_outliers_ = A((P_(d.int("n0", 2)), P), of(mk("bool", "oldflags", KV[0], KV[1])), "b"); o.is_fitted_ = True
    def co(d, m, W, fit):
        n, p, N, P, X, o = setup(d, m); state(d, o, N, P); Z, pr = FrameT(A((N, P), sym("z", KV[0], KV[1], nan=True)), "idx", "cols"), d.array("pred", n, p)
        if fit:
            class Est:
                _opaque = True
                def fit(self, r): self.scale = R_(fun("onestep", P_(d.opaque("col", r)), pos=True)); return self
            m.CellwiseOneStepM = Est
        F, R = o._cellwise_outliers(Z, pr, fit=fit); d.prove_same("residual: standardized cell minus its prediction, divided by the residual scale of the column", R, (Z.data - pr) / arr(o.residual_scales)); d.prove_same("a cell is flagged exactly when its residual exceeds the cutoff in absolute value", F, npm(d, "abs")(R) > o.cutoff)
        if not fit: d.prove_same("residual scales of the fit kept", o.residual_scales, A((P,), sym("sresid", KV[0], pos=True)))
    for fit in (False, True): unit(E, f"DDC._cellwise_outliers (fit={fit})", M, lambda d, m, W, fit=fit: co(d, m, W, fit))
    def U_(d, o, X): Z = (X.data - o.location_) / o.scale_; return Z, A(Z.shape_, npm(d, "where")(npm(d, "abs")(Z) > o.cutoff, float("nan"), Z).body)
    def pr(d, m, W, row):
        n, p, N, P, X, o = setup(d, m); state(d, o, N, P); o._rowwise_outliers = lambda R, fit=False: ("rows", A(R.shape_, R.body), fit); X0 = A(X.data.shape_, X.data.body)
        got = o.predict(X, rowwise=row); Xc = FrameT(A(X0.shape_, noinf(X0.body)), "idx", "cols"); Z, U = U_(d, o, Xc); R = (Z - o._get_predicted_values(FrameT(U, "idx", "cols")) * o.deshrinkage_) / o.residual_scales
        if row: d.prove_same("row flags: those of the cell residuals, with the fitted scale", got, ("rows", R, False))
        else: d.prove_same("residuals of the cells from the fitted predictions", got[1], R); d.prove_same("flags", got[0], npm(d, "abs")(R) > o.cutoff)
        d.prove_same("the data given are left as they were", X.data, X0)
    for row in (False, True): unit(E, f"DDC.predict (rowwise={row})", M, lambda d, m, W, row=row: pr(d, m, W, row))
    def im(d, m, W, out):
        n, p, N, P, X, o = setup(d, m); state(d, o, N, P); fl = A((N, P), of(mk("bool", "flags", KV[0], KV[1])), "b"); X0 = A(X.data.shape_, X.data.body); seen = []
        o.predict = lambda Y, rowwise=False: (seen.append(A(Y.data.shape_, Y.data.body)), (fl, None))[1]
        got = o.impute(X, impute_outliers=out); c = A(X0.shape_, noinf(X0.body)); Z, U = U_(d, o, FrameT(c, "idx", "cols")); new = (o._get_predicted_values(FrameT(U, "idx", "cols")) * o.deshrinkage_ * o.scale_ + o.location_).round(3)
        mis = npm(d, "isnan")(c); mis = (mis | fl) if out else mis
        d.prove_same("missing cells" + (" and flagged cells" if out else "") + " hold the prediction (three decimals), all others their value", got.data, npm(d, "where")(mis, new, c))
        d.record("index and columns kept", "proved" if got.index_ == "idx" and got.columns_ == "cols" else "failed")
        if out: d.record("the flags are those of these data", "proved" if len(seen) == 1 and (d.same(seen[0], c)[0] or d.same(seen[0], X0)[0]) else "failed")
    for out in (True, False): unit(E, f"DDC.impute (impute_outliers={out})", M, lambda d, m, W, out=out: im(d, m, W, out))
    def ft(d, m, W, row):
        n, p, N, P, X, o = setup(d, m); slope = lambda x, y: R_(fun("deshrink", P_(d.opaque("x", x)), P_(d.opaque("y", y)))); o._robust_slope = slope
        class Est:
            _opaque = True
            def fit(self, r, ignore_nan=False): q = P_(d.opaque("col", r)); self.scale = R_(fun("onestep", q, pos=True)); self.location = R_(fun("onesteploc", q)); return self
        m.CellwiseOneStepM = Est; Y = FrameT(A(X.data.shape_, X.data.body), "idx", "cols"); r = o.fit(X); d.record("fit returns the detector", "proved" if r is o else "failed"); d.record("fitted", "proved" if o.is_fitted_ is True else "failed")
        f0, r0, w0 = o.cellwise_outliers_, o.standardized_residuals_, o.row_outliers_
        d.prove_same("predictions reported in the units of the data", o.rescaled_predictions_, o.predictions_ * o.scale_ + o.location_)
        if row: d.prove_same("predicting the training data gives the row flags of the fit", o.predict(Y, rowwise=True), w0)
        else: F, R = o.predict(Y); d.prove_same("predicting the training data gives the flags of the fit", F, f0); d.prove_same("... and its residuals", R, r0)
    for row in (False, True): unit(E, f"DDC.fit, then predict on the same data (rowwise={row})", M, lambda d, m, W, row=row: ft(d, m, W, row))
    def er(d, m, W, what, call):
        n, p, N, P, X, o = setup(d, m)
        if what != "not fitted": state(d, o, N, P)
        if what == "columns": o.cellwise_outliers_ = A((N, P + ONE), ZERO, "b")
        if what == "text": d.textcols = True
        try: getattr(o, call)(X); d.record(f"{call}: {what}: refused with a ValueError", "failed")
        except ValueError: d.record(f"{call}: {what}: refused with a ValueError", "proved")
    for call in ("predict", "impute"):
        for what in ("not fitted", "columns", "text"): unit(E, f"DDC.{call}: {what}", M, lambda d, m, W, what=what, call=call: er(d, m, W, what, call))

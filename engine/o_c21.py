"""C21: conditional means and variances of the cellwise MCD, function by function"""
from tform import *
import math
npm = lambda d, nm: d.handlers["numpy." + nm]
def run(E):
    M = "robpy.covariance.cellmcd"
    def setup(d, m, rows="mask"):
        selections(d); n, p = d.int("n", 3), d.int("p", 2); N, P = P_(n), P_(p); w = A((P,), of(mk("bool", "w", KV[0])), "i"); X = d.array("x", n, p)
        pr, cv = d.array("pred0", n, p), d.array("var0", n, p); mu, S, Si = d.array("mu", p), d.array("s", p, p), d.array("si", p, p)
        mis, obs = npm(d, "where")(w == 0)[0], npm(d, "where")(w == 1)[0]; r = A((N,), of(mk("bool", "rows", KV[0])), "b"); rows = npm(d, "where")(r)[0]
        m.inverse_submatrix = lambda A_, Ai, i: npm(d, "linalg.inv")(A_[npm(d, "ix_")(i, i)])       # contract of robpy.utils.general.inverse_submatrix
        return n, p, N, P, w, X, pr, cv, mu, S, Si, mis, obs, r, rows
    def mv(d, m, W):
        n, p, N, P, w, X, pr, cv, mu, S, Si, mis, obs, r, rows = setup(d, m); o = m.CellMCD(); ix = npm(d, "ix_")
        a, b = o._predict_missing_values(X, pr.copy(), cv.copy(), rows, mis, obs, mu, S, Si)
        inv_ = npm(d, "linalg.inv")(S[ix(obs, obs)]); B = inv_ @ S[ix(obs, mis)]
        full = A((N, P), ZERO); mean = mu[mis] + (X[:, obs] - mu[obs]) @ B; full[:, mis] = mean; var = npm(d, "diag")(S[ix(mis, mis)] - S[ix(mis, obs)] @ B)
        fv = A((N, P), ZERO); fv[:, mis] = var
        at_ = (r[:, None] * (w == 0)[None, :]); sel = lambda new, old: A((N, P), where(at_.body, new.body, old.body))
        d.prove_same("conditional means of the missing cells of these rows, others unchanged", a, sel(full, pr)); d.prove_same("conditional variances", b, sel(fv, cv))
    unit(E, "CellMCD._predict_missing_values", M, mv)
    def am(d, m, W):
        n, p, N, P, w, X, pr, cv, mu, S, Si, mis, obs, r, rows = setup(d, m); o = m.CellMCD()
        a, b = o._predict_all_missing(pr.copy(), cv.copy(), rows, mu, S)
        d.prove_same("marginal means", a, A((N, P), where(r.body, subst(mu.body, {Kn(0): KV[1]}), pr.body))); d.prove_same("marginal variances", b, A((N, P), where(r.body, subst(S.body, {Kn(0): KV[1]}), cv.body)))
    unit(E, "CellMCD._predict_all_missing", M, am)
    def ov(d, m, W):
        n, p, N, P, w, X, pr, cv, mu, S, Si, mis, obs, r, rows = setup(d, m); o = m.CellMCD(); ix = npm(d, "ix_")
        a, b = o._predict_observed_values(X, pr.copy(), cv.copy(), rows, obs, mu, S, Si); at_ = mul(ren(r.body, []), subst(w.body, {Kn(0): KV[1]}))
        if d.branch(eq0(obs.dim(0) - ONE)): mean, var_ = subst(mu.body, {Kn(0): KV[1]}), subst(S.body, {Kn(0): KV[1]})
        else:
            q = fresh("j"); j = A((), var(q), "i"); oth = obs[obs != j]; iv = npm(d, "linalg.inv")(S[ix(oth, oth)]); c = S[oth, j]
            mean = subst((mu[j] + (X[:, oth] - mu[oth]) @ iv @ c).body, {q: KV[1]}); var_ = subst((S[j, j] - S[j, oth] @ iv @ c).body, {q: KV[1]})
        d.prove_same("conditional means of the observed cells given the others of the row", a, A((N, P), where(at_, mean, pr.body))); d.prove_same("conditional variances", b, A((N, P), where(at_, var_, cv.body)))
    unit(E, "CellMCD._predict_observed_values", M, ov)
    def nm(d, m, W):
        n, p, N, P, w, X, pr, cv, mu, S, Si, mis, obs, r, rows = setup(d, m); o = m.CellMCD(); ix = npm(d, "ix_")
        a, b = o._predict_no_missing(X, pr.copy(), cv.copy(), rows, mu, S, Si)
        q = fresh("j"); j = A((), var(q), "i"); ar = npm(d, "arange")(p); oth = ar[ar != j]; iv = npm(d, "linalg.inv")(S[ix(oth, oth)]); c = S[oth, j]
        mean = subst((mu[j] + (X[:, oth] - mu[oth]) @ iv @ c).body, {q: KV[1]}); d.prove_same("conditional means given all other cells of the row", a, A((N, P), where(r.body, mean, pr.body)))
        d.prove_same("conditional variances: reciprocal diagonal of the inverse", b, A((N, P), where(r.body, inv(subst(Si.body, {Kn(0): KV[1]})), cv.body)))
    unit(E, "CellMCD._predict_no_missing", M, nm)
    def uniq(d, W, N):
        """np.unique(W, axis=0): some rows of W (every row of W equals exactly one of them)"""
        U = sym("patterns", integer=True, pos=True); rw = sym("patternrow", KV[0], integer=True)
        def f(x, axis=None, **k):
            if axis != 0 or x.body is not W.body: raise Unsupported("np.unique")
            return A((U, W.shape_[1]), subst(W.body, {Kn(0): rw}), W.dt)
        d.handlers["numpy.unique"] = f
    def cm(d, X, mu, S, m0, j, q):
        """conditional mean (per row) and variance of coordinate j given those selected by m0"""
        ix = npm(d, "ix_"); o = sel(m0); iv = npm(d, "linalg.inv")(S[ix(o, o)]); c = S[o, j]; return mu[j] + (X[:, o] - mu[o]) @ iv @ c, S[j, j] - S[j, o] @ iv @ c
    def cd(d, m, W_):
        n, p, N, P, w, X, pr, cv, mu, S, Si, mis, obs, r, rows = setup(d, m); o = m.CellMCD(); W = A((N, P), of(mk("bool", "W", KV[0], KV[1])), "i"); X = d.array("xn", n, p, nan=True) if False else A((N, P), sym("xn", KV[0], KV[1], nan=True)); uniq(d, W, N); q = fresh("j"); j = A((), var(q), "i"); d.c21 = (X, W, mu, S, j, q)
        o._calculate_delta(X, W, S, Si, mu, j)
    def dh(tl, hv, loc):
        d = tl.d
        if "delta" not in hv or "unique_rows" not in loc: return
        X, W, mu, S, j, q = d.c21; w = loc["w"]; x = X[:, j]; rows = npm(d, "all")(W == w, axis=1); fin = npm(d, "isfinite")(x); old = hv["delta"]
        if not S_(sel(A(rows.shape_, mul(rows.body, fin.body), "b")).dim(0)) > 0: d.prove_same("no finite cell in the rows with this pattern: unchanged", loc["delta"], old); return
        m0 = w.copy(); m0[j] = 0; l2 = npm(d, "log")(2 * npm(d, "pi") if callable(d.handlers.get("numpy.pi")) else 2 * math.pi)
        if npm(d, "any")(m0): mean, c = cm(d, X, mu, S, A(m0.shape_, m0.body, 'b'), j, q)
        else: mean, c = mu[j], S[j, j]
        val = (x - mean) ** 2 / c + npm(d, "log")(c) + l2
        d.prove_same("the criterion of the rows with this pattern and a finite cell: squared conditional residual, log conditional variance, log 2 pi; other rows unchanged", loc["delta"], A(old.shape_, where(mul(rows.body, fin.body), val.body, old.body)))
    unit(E, "CellMCD._calculate_delta", M, cd, hooks=[dh], nolearn=('_calculate_delta',), need=["the criterion of the rows"])
    def mp(d, m, W_):
        n, p, N, P, w, X, pr, cv, mu, S, Si, mis, obs, r, rows = setup(d, m); o = m.CellMCD(); W = A((N, P), of(mk("bool", "W", KV[0], KV[1])), "i"); uniq(d, W, N); d.calls = []
        def stub(nm):
            def f(*a):
                d.calls.append((nm, a)); i = 1 if nm != "_predict_all_missing" else 0
                at_ = lambda t, x: A(x.shape_, sym(nm + t, KV[0], KV[1]))
                return at_("mean", a[i]), at_("var", a[i + 1])
            return f
        for nm in ("_predict_missing_values", "_predict_observed_values", "_predict_no_missing", "_predict_all_missing"): setattr(o, nm, stub(nm))
        d.c21 = (X, W, mu, S, Si); o._make_predictions(X, S, Si, mu, W)
    def ph(tl, hv, loc):
        d = tl.d
        if "predictions" not in hv: return
        X, W, mu, S, Si = d.c21; w = loc["w"]; p = W.shape_[1]; c = [x for x in d.calls]; rows = sel(npm(d, "all")(W == w, axis=1)); mis, obs = sel(w == 0), sel(w == 1); a, b = hv["predictions"], hv["conditional_variances"]; nmis = S_(mis.dim(0))
        at_ = lambda nm, t: A(a.shape_, sym(nm + t, KV[0], KV[1]))
        first = c[0][0] if c else ""; q = "_predict_missing_values"; k_, P = P_(nmis), P_(p); bnd = [ge0(k_), ge0(P - k_)]
        if first == q: want = [(q, (X, a, b, rows, mis, obs, mu, S, Si)), ("_predict_observed_values", (X, at_(q, "mean"), at_(q, "var"), rows, obs, mu, S, Si))]; when = [mul(gt0(k_), gt0(P - k_))]
        elif first == "_predict_no_missing": want = [(first, (X, a, b, rows, mu, S, Si))]; when = [eq0(k_)]
        else: want = [("_predict_all_missing", (a, b, rows, mu, S))]; when = [eq0(P - k_)]
        cond(d, "the function called is the one for this number of flagged columns", when, bnd)
        ok = [x[0] for x in c] == [x[0] for x in want] and all(d.same(x[1], y[1])[0] for x, y in zip(c, want))
        d.record("each pattern is predicted by the function for its case, on the rows with that pattern, its flagged and unflagged columns and the current location and scatter", "proved" if ok else "failed", "" if ok else f"{[x[0] for x in c]} instead of {[x[0] for x in want]}" + "; ".join(str(d.same(x[1], y[1])[1]) for x, y in zip(c, want)))
        z = want[-1][0]; d.prove_same("... and the result is kept", (loc["predictions"], loc["conditional_variances"]), (at_(z, "mean"), at_(z, "var")))
    unit(E, "CellMCD._make_predictions", M, mp, hooks=[ph], nolearn=('_make_predictions',), need=["each pattern is predicted", "... and the result is kept"])
    G = "robpy.utils.general"
    def isub(d, m, W_):
        selections(d); p = d.int("p", 2); P = P_(p); S, Si = d.array("s", p, p), d.array("si", p, p); w = A((P,), of(mk("bool", "w", KV[0])), "b"); i, o = sel(w), sel(~w); ix = npm(d, "ix_"); k = S_(i.dim(0))
        v = m.inverse_submatrix(S, Si, i)
        forms = [Si[ix(i, i)] - Si[ix(i, o)] @ npm(d, "linalg.inv")(Si[ix(o, o)]) @ Si[ix(o, i)], npm(d, "linalg.inv")(S[ix(i, i)])]; nm = "the inverse of the submatrix, or the Schur complement of the complementary block in the inverse (the same matrix)"
        if any(d.same(v, e)[0] for e in forms): d.record(nm, "proved")
        elif d.same(v, Si)[0]: cond(d, "the full inverse only for the full set", [ge0(P_(k) - P)])
        else: d.prove_same(nm, v, forms[0])
    unit(E, "inverse_submatrix", G, isub)
    U = "robpy.covariance.utils.cellmcd_utils"
    def ob(d, m, W_):
        n, p, N, P, w, X, pr, cv, mu, S, Si, mis, obs, r, rows = setup(d, m); W = A((N, P), of(mk("bool", "W", KV[0], KV[1])), "i"); uniq(d, W, N); d.c21 = (X, W, mu, S, Si)
        m.objective_function(X, W, mu, S, Si)
    def oh(tl, hv, loc):
        d = tl.d
        if "objective" not in hv: return
        X, W, mu, S, Si = d.c21; w = loc["w"]; rows = npm(d, "all")(W == w, axis=1); ix = npm(d, "ix_"); o = sel(A(w.shape_, w.body, "b")); z = X[:, o] - mu[o]; iv = npm(d, "linalg.inv")(S[ix(o, o)])
        each = npm(d, "sum")((z @ iv) * z, axis=1) + npm(d, "linalg.slogdet")(S[ix(o, o)])[1] + npm(d, "log")(2 * math.pi) * S_(o.dim(0))
        d.prove_same("each pattern adds, for every row with it, squared distance + log determinant + log(2 pi) times the number of its unflagged cells", loc["objective"], hv["objective"] + npm(d, "sum")(each[sel(rows)]))
    unit(E, "objective_function", U, ob, hooks=[oh], nolearn=('objective_function',), need=["each pattern adds"])

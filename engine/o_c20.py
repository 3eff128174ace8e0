"""C20: the cellwise MCD's C-steps, function by function"""
from tform import *
import math
npm = lambda d, nm: d.handlers["numpy." + nm]
def run(E):
    M = "robpy.covariance.cellmcd"
    def setup(d):
        selections(d); n, p = d.int("n", 3), d.int("p", 2); N, P = P_(n), P_(p); X = A((N, P), sym("xn", KV[0], KV[1], nan=True)); W = A((N, P), of(mk("bool", "W", KV[0], KV[1])), "i")
        mu, S, Si, q = d.array("mu", p), d.array("s", p, p), d.array("si", p, p), d.array("q", p); hh = sym("h", pos=True, integer=True); setlow(hh, 1)
        return n, p, N, P, X, W, mu, S, Si, q, S_(hh)
    # (a) update of W
    def uw(d, m, W_):
        n, p, N, P, X, W, mu, S, Si, q, h = setup(d); o = m.CellMCD(); d.c = (n, p, X, W, mu, S, Si, q, h, [])
        def delta_(X_, W__, sigma, sigma_inv, mu_, j): d.c[-1].append((X_, A(W__.shape_, W__.body, W__.dt), sigma, sigma_inv, mu_, j)); return A((N,), sym("delta", KV[0], P_(j)))
        o._calculate_delta = delta_; W0 = A(W.shape_, W.body, W.dt)
        r = o._update_W(X, W, mu, S, Si, q, h); d.prove_same("the W given is left as it was", W, W0)
    def uh(tl, hv, loc):
        d = tl.d
        if "W" not in hv: return
        n, p, X, W, mu, S, Si, q, h, calls = d.c; w0 = hv["W"]; j = loc["j"]
        d.record("the criterion is computed with the current W, location and scatter", "proved" if len(calls) == 1 and d.same(calls[0], (X, w0, S, Si, mu, j))[0] else "failed")
        dl = A((P_(n),), sym("delta", KV[0], P_(j))); good = dl <= q[j]
        if npm(d, "sum")(good) < h: g = lift(lambda e: e, npm(d, "zeros")(n)); g[npm(d, "argsort")(dl, kind="stable")[:h]] = 1
        else: g = good
        d.prove_same("the cells with a criterion of at most q_j are good, or the h smallest if those are fewer than h; the other columns keep their cells", loc["W"], A(w0.shape_, where(delta(KV[1], P_(j)), g.body, w0.body)))
    unit(E, "CellMCD._update_W", M, uw, hooks=[uh], nolearn=("_update_W",), need=["are good, or the h smallest"])
    # (b) expectation and maximisation
    def cs(d, m, W_):
        n, p, N, P, X, W, mu, S, Si, q, h = setup(d); o = m.CellMCD(); X = d.array("x", n, p); W1 = A((N, P), of(mk("bool", "W1", KV[0], KV[1])), "i"); d.c = (n, p, X, W, mu, S, Si)
        def up(*a): d.record("W is updated with the current estimates", "proved" if d.same(a, (X, W1, mu, S, Si, q, h))[0] else "failed"); return W
        o._update_W = up; X0 = A(X.shape_, X.body); w, m1, s1 = o._C_step(X, W1, mu, S, Si, q, h); d.prove_same("the W reported is the updated one", w, W); d.prove_same("the data given are left as they were", X, X0)
        hd = [x for x in d.heads if "X_imputed" in x and "bias" in x]
        if not hd: raise Unsupported("no loop over the rows")
        Z, b = hd[-1]["X_imputed"], hd[-1]["bias"]
        d.prove_same("location: mean of the completed data", m1, npm(d, "mean")(Z, axis=0)); d.prove_same("scatter: covariance (divisor n) of the completed data plus the mean of the conditional covariances", s1, npm(d, "cov")(Z, rowvar=False) * (n - 1) / n + b / n)
    def ch(tl, hv, loc):
        d = tl.d
        if "X_imputed" not in hv or "bias" not in hv: return
        n, p, X, W, mu, S, Si = d.c; i = loc["i"]; Z, b = hv["X_imputed"], hv["bias"]; w = W[i]; ix = npm(d, "ix_"); mis, obs = sel(w == 0), sel(w == 1); k, P = P_(mis.dim(0)), P_(p); got = (loc["X_imputed"], loc["bias"])
        def row(v): z = A(Z.shape_, Z.body); z[i, :] = v; return z
        C = npm(d, "linalg.inv")(Si[ix(mis, mis)]); f = A((P,), Z[i].body); f[mis] = mu[mis] - C @ Si[ix(mis, obs)] @ (X[i][obs] - mu[obs]); b2 = A(b.shape_, b.body); b2[ix(mis, mis)] = b2[ix(mis, mis)] + C
        for case, want in (("complete row", (Z, b)), ("no cell left", (row(mu), b + S)), ("some cells flagged", (row(f), b2))):
            if d.same(got, want)[0]:
                cond(d, f"each row: {case}: completed by its conditional means, its conditional covariance added", [dict(c=eq0(k), n=eq0(P - k), s=mul(gt0(k), gt0(P - k)))[case[0]]], [ge0(k), ge0(P - k)]); return
        d.prove_same("each row: some cells flagged: completed by its conditional means, its conditional covariance added", got, (row(f), b2))
    unit(E, "CellMCD._C_step", M, cs, hooks=[ch], nolearn=("_C_step",), need=["each row: some cells flagged", "each row: no cell left", "each row: complete row"])
    # iterations
    def it(d, m, W_):
        d.m = m; n, p, N, P, X, W, mu, S, Si, q, h = setup(d); o = m.CellMCD(); al = R_(sym("alpha_", pos=True)); o.alpha_ = al; d.c = (n, p, X, mu, S, Si, o); mc = sym("maxc", pos=True, integer=True); setlow(mc, 1); o.max_c_steps = S_(mc); o.crit = R_(sym("crit", pos=True)); d.step = []
        m.objective_function = lambda X_, W__, a, b, c: R_(fun("obj", P_(d.opaque("W", W__)), P_(d.opaque("m", a)), P_(d.opaque("S", b)), P_(d.opaque("Si", c))))
        def step(X_, Wo, a, b, c, q_, h_):
            d.step.append((X_, Wo, a, b, c)); g = [P_(d.opaque(t, v)) for t, v in zip("Wabc", (Wo, a, b, c))]
            return A((N, P), of(mk("bool", "stepW", *g, KV[0], KV[1])), "i"), A((P,), sym("stepm", *g, KV[0])), A((P, P), sym("stepS", *g, KV[0], KV[1]))
        o._C_step = step; m.truncated_covariance = lambda c, e: A(c.shape_, sym("trunc", P_(d.opaque("c", c)), KV[0], KV[1]))
        r = o._C_steps_until_convergence(X, mu, S, Si); hd = [x for x in d.heads if "W_old" in x]
        if not hd: raise Unsupported("no iteration")
        a = hd[-1]; old = tuple(a[k] for k in ("location_old", "cov_old", "cov_inv_old", "W_old")); new = tuple(a.get(k, UNDEF) for k in ("location", "cov", "cov_inv", "W"))
        d.record("the estimates reported are those of one and the same iteration: the last accepted one", "proved" if d.same(r, old)[0] or (all(x is not UNDEF for x in new) and d.same(r, new)[0]) else "failed")
    PEN = lambda d, W, Si: npm(d, "sum")((chi(d) - npm(d, "log")(npm(d, "diag")(Si)) + npm(d, "log")(2 * math.pi)) * npm(d, "sum")(1 - W, axis=0))
    chi = lambda d: d.m.chi2.ppf(0.99, 1)
    obj = lambda d, W, a, b, c: R_(fun("obj", P_(d.opaque("W", W)), P_(d.opaque("m", a)), P_(d.opaque("S", b)), P_(d.opaque("Si", c)))) + PEN(d, W, d.c[5])
    def ih(tl, hv, loc):
        d = tl.d
        if "W_old" not in hv: return
        for x in ("location", "cov", "cov_inv", "W"): d.prove_same(f"accepted iteration: {x} is kept for the next", loc[x], loc[x + "_old"])
        X, mu, S, Si = d.c[2:6]
        d.record("each iteration is a C-step from the estimates kept", "proved" if len(d.step) == 1 and d.same(d.step[0], (X, hv["W_old"], hv["location_old"], hv["cov_old"], hv["cov_inv_old"]))[0] else "failed")
        g = [P_(d.opaque(t, v)) for t, v in zip("Wabc", (hv["W_old"], hv["location_old"], hv["cov_old"], hv["cov_inv_old"]))]; st = A(loc["cov"].shape_, sym("stepS", *g, KV[0], KV[1]))
        d.prove_same("the scatter kept is the truncated one of the step", loc["cov"], A(st.shape_, sym("trunc", P_(d.opaque("c", st)), KV[0], KV[1]))); d.prove_same("... with its inverse", loc["cov_inv"], npm(d, "linalg.inv")(loc["cov"]))
        new, was = obj(d, loc["W"], loc["location"], loc["cov"], loc["cov_inv"]), obj(d, hv["W_old"], hv["location_old"], hv["cov_old"], hv["cov_inv_old"])
        le(d, "the penalized objective of the estimates kept is not above that of the ones before", new, was)
    def inv_obj(d):
        def f(L):
            v = arr(L["objective_values"]); return A(v.shape_, where(delta(KV[0], P_(L["step"])), P_(obj(d, L["W_old"], L["location_old"], L["cov_old"], L["cov_inv_old"])), v.body))
        return {"objective_values": f}
    unit(E, "CellMCD._C_steps_until_convergence", M, lambda d, m, W: single(d, lambda: it(d, m, W), raises=("UnboundLocalError",)), hooks=[ih], invs=[inv_obj], need=["the penalized objective of the estimates kept", "the estimates reported"])
    # the whole estimator around them
    def cc(d, m, W_):
        n, p = d.int("n", 3), d.int("p", 1); N, P = P_(n), P_(p); X = A((N, P), sym("xn", KV[0], KV[1], nan=True)); o = m.CellMCD(); made = []; calls = []
        class Scaler:
            _opaque = True
            def __init__(self, **k): self.t = ["data", "residuals"][len(made)]; made.append(self); self.scales_ = A((P,), sym("scales " + self.t, KV[0], pos=True)); self.locations_ = A((P,), sym("locations " + self.t, KV[0]))
            def fit(self, X, ignore_nan=False): self.of = A(X.shape_, X.body); return self
            def transform(self, X): return (X - self.locations_) / self.scales_
        mu0, S0, I0 = A((P,), sym("mu0", KV[0])), A((P, P), sym("S0", KV[0], KV[1])), A((P, P), sym("I0", KV[0], KV[1])); mu, S, I = A((P,), sym("mu", KV[0])), A((P, P), sym("S", KV[0], KV[1])), A((P, P), sym("I", KV[0], KV[1])); w = A((N, P), of(mk("bool", "w", KV[0], KV[1])), "i")
        class Init:
            def __init__(self, **k): pass
            def fit(self, X): calls.append(("init", A(X.shape_, X.body))); self.location_ = mu0; self.covariance_ = S0; self.precision_ = I0
        m.RobustScaler = Scaler; m.InitialDDCW = Init; o._check_data = lambda X: None; pr, cv = A((N, P), sym("pred", KV[0], KV[1])), A((N, P), sym("condvar", KV[0], KV[1], pos=True))
        def steps(X_, *a): calls.append(("steps", A(X_.shape_, X_.body)) + a); return mu, S, I, w
        def pred(X_, *a): calls.append(("pred", A(X_.shape_, X_.body)) + a); return pr, cv
        o._C_steps_until_convergence = steps; o._make_predictions = pred; X0 = A(X.shape_, X.body); o.calculate_covariance(X); sc, lc = made[0].scales_, made[0].locations_; Z = (X0 - lc) / sc; Zn = npm(d, "where")(npm(d, "abs")(Z) > 3, float("nan"), Z)
        d.prove_same("the initial estimate, the C-steps and the predictions work on the scaled data, cells beyond 3 missing from the C-steps on, with the estimates handed on", calls, [("init", Z), ("steps", Zn, mu0, S0, I0), ("pred", Zn, S, I, mu, w)])
        P2 = lc + pr * sc; sd = lift(lambda e: pw(e, Fr(1, 2)), cv) * sc
        d.prove_same("predictions reported in the units of the data", o.predictions, P2); d.prove_same("conditional standard deviations", o.conditional_stds, sd); d.prove_same("cell indicators reported: those of the last accepted step", o.W, w)
        d.prove_same("the imputed data hold the predictions in flagged cells and the data elsewhere", o.X_imputed, A((N, P), where(w.body, X0.body, P2.body)))
        R = (X0 - P2) / sd; d.prove_same("residuals: standardized differences from the predictions, rescaled", o.residuals, R / made[1].scales_); d.prove_same("... by the scales of those differences", made[1].of, R); d.prove_same("the data given are left as they were", X, X0)
    unit(E, "CellMCD.calculate_covariance", M, lambda d, m, W: single(d, lambda: cc(d, m, W), raises=("ValueError",)))

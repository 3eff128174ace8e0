"""C13: the h-subset contracts of FAST-MCD and DetMCD, function by function"""
from tform import *
M = "robpy.covariance.mcd"

def npm(d, name): return d.handlers["numpy." + name]
def subset(m, d, nm, h, p, *v):
    """an arbitrary h-subset"""
    return m.HSubset(A((h,), sym("idx:" + nm, *v, KV[0], integer=True), "i"), A((p,), sym("loc:" + nm, *v, KV[0])), A((p, p), sym("cov:" + nm, *v, KV[0], KV[1])), R_(sym("det:" + nm, *v)), A((), sym("steps:" + nm, *v, integer=True), "i"))
def is_subset(d, nm, s, X, idx):
    d.prove_same(nm + ": observations", s.indices, idx); Xi = X[idx]
    d.prove_same(nm + ": location is the mean of the subset", s.location, npm(d, "mean")(Xi, axis=0))
    d.prove_same(nm + ": scatter is the covariance of the subset", s.scale, npm(d, "cov")(Xi, rowvar=False))
    d.prove_same(nm + ": determinant of that covariance", s.determinant, npm(d, "linalg.det")(npm(d, "cov")(Xi, rowvar=False)))
def run(E):
    for C in ("FastMCD", "DetMCD"):
        def new(m): o = object.__new__(getattr(m, C)); o.rng = m.np.random.default_rng(0); return o
        def gs(d, m, W):
            n, p, h = d.int("n", 2), d.int("p", 1), d.int("h", 1); X = d.array("x", n, p); idx = A((P_(h),), sym("idx", KV[0], integer=True), "i")
            is_subset(d, "subset", new(m)._get_subset(idx, X, n_c_steps=3), X, idx)
        unit(E, f"{C}._get_subset", M, gs)
        def gs2(d, m, W):
            n, p, h = d.int("n", 2), d.int("p", 1), d.int("h", 1); X = d.array("x", n, p); idx = A((P_(h),), sym("idx", KV[0], integer=True), "i")
            s = new(m)._get_subset(idx, X, ensure_non_singular=True); is_subset(d, "enlarged subset", s, X, s.indices)
        sub = lambda d: dict(mu=lambda L: npm(d, "mean")(L["X"][L["indices"]], axis=0), cov=lambda L: npm(d, "cov")(L["X"][L["indices"]], rowvar=False), det=lambda L: npm(d, "linalg.det")(npm(d, "cov")(L["X"][L["indices"]], rowvar=False)))
        if C == "FastMCD": unit(E, f"{C}._get_subset (until nonsingular)", M, gs2, invs=[sub])
        def cs(d, m, W):
            n, p, h = d.int("n", 2), d.int("p", 1), d.int("h", 1); X = d.array("x", n, p); o = new(m); seen = []
            o._get_h = lambda X: (seen.append(X), h)[1]; s = subset(m, d, "s", sym("h0", integer=True, pos=True), P_(p)); r = o._perform_c_step(s, X)
            c = X - s.location; q = npm(d, "sum")(c @ npm(d, "linalg.inv")(s.scale) * c, axis=1)
            is_subset(d, "concentration step", r, X, npm(d, "argsort")(npm(d, "sqrt")(q))[:h]); d.prove_same("subset size asked for the same data", seen[-1], X)
        unit(E, f"{C}._perform_c_step", M, cs)
        def cc(d, m, W):
            n, p = d.int("n", 2), d.int("p", 1); X = d.array("x", n, p); o = new(m); s = subset(m, d, "s", sym("h0", integer=True, pos=True), P_(p)); r = o._correct_covariance(X, s)
            c = X - s.location; q = npm(d, "sum")(c @ npm(d, "linalg.inv")(s.scale) * c, axis=1)
            d.prove_same("scatter times median of the squared distances over the chi-square median", r, s.scale * (npm(d, "median")(q) / d.handlers["scipy.stats.chi2.ppf"](0.5, p)))
        unit(E, f"{C}._correct_covariance", M, cc)

        # the whole estimator over the contracts of its parts
        def whole(d, m, W, config, what, cc, rw, alpha):
            n, p, h = d.int("n", 2), d.int("p", 1), sym("h", pos=True, integer=True); P = P_(p); X = d.array("x", n, p); o = getattr(m, C)(correct_covariance=cc, reweighting=rw, tolerance=R_(sym("tol", pos=True)), alpha=alpha(n) if callable(alpha) else alpha, **config)
            nb = sym("nb", pos=True, integer=True); setlow(nb, 1); d.steps = []
            def step(s, Y):
                q = lambda nm, out=(), dt="f": A(out, d.opaque("cstep:" + nm, s.indices, s.location, s.scale, Y, out=out).body, dt)
                r = m.HSubset(q("idx", (h,), "i"), q("loc", (P,)), q("cov", (P, P)), q("det"), q("steps", (), "i")); d.steps.append((s, r, Y)); return r
            o._perform_c_step = step; o._correct_covariance = lambda Y, b: (setattr(d, "corrected", (Y, b)), A((P, P), d.opaque("corrected", Y, b.indices, b.location, b.scale, out=(P, P)).body))[1]
            cands = SymList(nb, lambda k: subset(m, d, "cand", h, P, k))
            if C == "FastMCD":
                np_ = sym('partitions', pos=True, integer=True); setlow(np_, 1); o._partition_data = lambda Y: SymList(np_, lambda k: A((sym('rows', k, pos=True, integer=True), P), sym('part', k, KV[0], KV[1]))); o._get_initial_subsets = lambda Y, k: cands; o._perform_multiple_c_steps = lambda s, Y, n_iterations: s
            else: o._get_initial_best_subsets = lambda Z, Y, n, p: cands; o._Qn_scale = lambda Y, axis=0: d.opaque("qn", Y, out=(P,)); o._tau_scale = lambda Y, axis=0: d.opaque("tau", Y, out=(P,))
            S = o.calculate_covariance(X); H = d.handlers
            if alpha is not None:
                d.prove_same("classical mean", o.location_, npm(d, "mean")(X, axis=0)); d.prove_same("classical covariance", S, npm(d, "cov")(X, rowvar=False)); return
            b = o.best_subset; loc, S0 = b.location, b.scale
            if cc: S0 = d.opaque("corrected", X, b.indices, b.location, b.scale, out=(P, P))
            if rw:
                c = X - loc; dist = npm(d, "sqrt")(npm(d, "sum")(c @ npm(d, "linalg.inv")(S0) * c, axis=1)); cut = H["scipy.stats.chi2.ppf"](0.975, p); k = dist < npm(d, "sqrt")(cut)
                loc = npm(d, "mean")(X[k], axis=0); S0 = npm(d, "cov")(X[k], rowvar=False)
                if cc: S0 = S0 * (1 / (H["scipy.stats.gamma.cdf"](cut / 2, p / 2 + 1) / 0.975))
            d.prove_same("location: " + what, o.location_, loc); d.prove_same("covariance: " + what, S, S0)
        def hook(tl, hv, loc):
            d = tl.d
            if "best_subset" not in loc or "subset" not in loc or "new_subset" not in loc or "best_subset" not in hv or tl.it is None: return
            b0, b1, s, new = hv["best_subset"], loc["best_subset"], loc["subset"], loc["new_subset"]
            le(d, "the reported determinant never rises", b1.determinant, b0.determinant)
            le(d, "the reported determinant is at most that of the refined candidate", b1.determinant, s.determinant)
            same = [x for x in (b0, s) if d.same(b1, x)[0]]
            d.record("the reported subset is one of the refined candidates", "proved" if same else "failed", "")
            st = [(a, r, Y) for a, r, Y in d.steps if r is new]
            d.record("a further step from the refined candidate was tried", "proved" if st and d.same(st[0][0], s)[0] else "failed", "")
            cond(d, "the further step gains less than the tolerance or keeps the subset", [gt0(P_(tl.self_tol) - P_(s.determinant) + P_(new.determinant)), P_(npm(d, "all")(new.indices == s.indices))])
        cfg = dict(random_seed=0, n_partitions=1, n_best_subsets=A((), sym("nbest", pos=True, integer=True), "i")) if C == "FastMCD" else {}
        tolhook = lambda tl, hv, loc: (setattr(tl, "self_tol", R_(sym("tol", pos=True))), hook(tl, hv, loc))
        for cc in (True, False):
            for rw in (True, False):
                w = f"correct_covariance={cc}, reweighting={rw}"; unit(E, f"{C}.calculate_covariance ({w})", M, lambda d, m, W, cc=cc, rw=rw, w=w: whole(d, m, W, cfg, w, cc, rw, None), hooks=[tolhook], need=["never rises"])
        for a in (1, lambda n: n): unit(E, f"{C}.calculate_covariance (alpha {'n' if callable(a) else a})", M, lambda d, m, W, a=a: whole(d, m, W, cfg, "", True, True, a))
    def mult(d, m, W):
        n, p = d.int("n", 2), d.int("p", 1); X = d.array("x", n, p); o = object.__new__(m.FastMCD); log = []
        def step(s, Y): r = subset(m, d, f"s{len(log)}", sym("h", integer=True, pos=True), P_(p)); log.append((s, r, Y)); return r
        o._perform_c_step = step; s = subset(m, d, "s", sym("h0", integer=True, pos=True), P_(p)); r = o._perform_multiple_c_steps(s, X, 2)
        d.record("two steps, one after the other, on the same data", "proved" if len(log) == 2 and log[0][0] is s and log[1][0] is log[0][1] and r is log[1][1] and all(y is X for _, _, y in log) else "failed")
    unit(E, "FastMCD._perform_multiple_c_steps", M, mult)
    E.assume("a concentration step never raises the determinant (Rousseeuw and Van Driessen 1999, theorem 1)")

"""C16: symmetric, positive semidefinite, consistent with the correlations"""
from tform import *
from o_c02 import Est, est_contract
import types
npm = lambda d, nm: d.handlers["numpy." + nm]
def sym_(d, nm, C): d.prove_same(nm + " is symmetric", C.T, C)
def symmat(d, nm, P, f=lambda *a: sym(*a)): return A((P, P), tdom.matf("symmetric", [], (), (), (nm,)) if False else f(nm, add(KV[0], KV[1]), mul(KV[0], KV[1])))     # an arbitrary symmetric matrix: a function of the unordered pair of indices
def mk_ind(nm): return of(mk("bool", nm, KV[0], KV[1]))
def run(E):
    M = "robpy.covariance.utils.alter_covariance"
    def tr(d, m, W):
        p = d.int("p", 1); S = d.array("s", p, p); lo = R_(sym("floor", pos=True)); T = m.truncated_covariance(S, lo); sym_(d, "truncated matrix", T)
        l, V = npm(d, "linalg.eigh")((S + S.T) * 0.5); l2 = npm(d, "where")(l < lo, lo, l)
        d.prove_same("spectral: V diag(max(eigenvalue, minimum)) V' for the eigenvalues and vectors of the symmetric part", T, (V * l2) @ V.T); d.prove_same("the argument is left alone", S, d.array("s", p, p))
    unit(E, "truncated_covariance", M, tr)
    def co(d, m, W):
        p = d.int("p", 1); S = symmat(d, "s", P_(p)); R = m.covariance_to_correlation(S); sym_(d, "correlation", R); s = lift(lambda q: pw(q, Fr(1, 2)), npm(d, "diag")(S))
        d.prove_same("covariance over the outer product of its standard deviations", R * npm(d, "outer")(s, s), S)
        T = A((P_(p), P_(p)), where(delta(KV[0], KV[1]), sym("var", KV[0], pos=True), S.body)); d.prove_same("unit diagonal", npm(d, "diag")(m.covariance_to_correlation(T)), A((P_(p),), ONE))
    unit(E, "covariance_to_correlation", M, co)
    def ke(d, m, W):
        est_contract(d); n, p = d.int("n", 2), d.int("p", 1); X = d.array("x", n, p); m.Qn = lambda: Est(d); o = m.KendallTau(); C = o.calculate_covariance(X); s = A((P_(p),), R_(P_(0)).body)
        s = A((P_(p),), subst(P_(Est(d).fit(X[:, A((), var(("q",)), "i")]).scale), {("q",): KV[0]})); R = o.correlation_
        sym_(d, "covariance", C); sym_(d, "correlation", R); d.prove_same("unit diagonal", npm(d, "diag")(R), A((P_(p),), ONE)); d.prove_same("variances are the squared robust scales", npm(d, "diag")(C), s * s); d.prove_same("covariance is the correlation times the outer product of the scales", C, R * npm(d, "outer")(s, s))
    unit(E, "KendallTau.calculate_covariance", "robpy.covariance.kendall", ke)
    def wr(d, m, W):
        n, p = d.int("n", 2), d.int("p", 1); X = d.array("x", n, p); Z = A((P_(n), P_(p)), d.opaque("wrapped", X, out=(P_(n), P_(p))).body); m.wrapping_transformation = lambda X, **k: Z; o = m.WrappingCovariance(); C = o.calculate_covariance(X); R = o.correlation_; s = lift(lambda q: pw(q, Fr(1, 2)), npm(d, "diag")(C))
        sym_(d, "covariance", C); sym_(d, "correlation", R); d.prove_same("unit diagonal", npm(d, "diag")(R), A((P_(p),), ONE)); off = npm(d, "ones")((p, p)) - npm(d, "eye")(p); d.prove_same("off the diagonal: covariance over the outer product of its standard deviations", R * npm(d, "outer")(s, s) * off, C * off)
        d.prove_same("sample covariance (positive semidefinite) of the wrapped data", C, npm(d, "cov")(Z, rowvar=False))
    unit(E, "WrappingCovariance.calculate_covariance", "robpy.covariance.wrapping", wr)
    def og(d, m, W, niter, rw):
        n, p = d.int("n", 2), d.int("p", 1); X = d.array("x", n, p); P = P_(p); est_contract(d); sc, ei, H = [], [], d.handlers; old = H["numpy.linalg.eigh"]
        def scale(v, axis=None): r = d.handlers["estimator.scale"](v, axis); axis is not None and sc.append(r); return r
        def eigh(a): V = A((P, P), sym(f"vec{len(ei)}", KV[0], KV[1])); ei.append((a, V)); return A((P,), sym(f"val{len(ei)}", KV[0])), V
        H["numpy.linalg.eigh"] = eigh
        try: C = m.OGK(n_iterations=niter, location_estimator=lambda v, axis=None: d.handlers["estimator.location"](v, axis), scale_estimator=scale, reweighting=rw).calculate_covariance(X)
        finally: H["numpy.linalg.eigh"] = old
        sym_(d, "covariance", C)
        if rw: return
        for a, _ in ei: sym_(d, "matrix of pairwise correlations", a)
        B = npm(d, "eye")(p)
        for s, (_, V) in zip(sc, ei): B = B @ npm(d, "diag")(s) @ V[:, ::-1]
        d.prove_same("a congruence of the squared robust scales (positive semidefinite)", C, B @ npm(d, "diag")(sc[-1] * sc[-1]) @ B.T)
    for k in (0, 1, 2): unit(E, f"OGK.calculate_covariance ({k} iterations)", "robpy.covariance.ogk", lambda d, m, W, k=k: og(d, m, W, k, False))
    unit(E, "OGK.calculate_covariance (reweighting)", "robpy.covariance.ogk", lambda d, m, W: og(d, m, W, 1, True))
    # ---- minimum covariance determinant
    M = "robpy.covariance.mcd"
    def gs(d, m, W, C):
        n, p, h = d.int("n", 2), d.int("p", 1), d.int("h", 1); X = d.array("x", n, p); o = object.__new__(getattr(m, C)); s = o._get_subset(A((P_(h),), sym("idx", KV[0], integer=True), "i"), X); sym_(d, "scatter of a subset", s.scale)
        k = m.HSubset(A((P_(h),), sym("idx", KV[0], integer=True), "i"), A((P_(p),), sym("loc", KV[0])), symmat(d, "scatter", P_(p)), R_(sym("det")), 1); sym_(d, "corrected scatter", o._correct_covariance(X, k))
    def whole(d, m, W, C, cc, rw):
        n, p, h = d.int("n", 2), d.int("p", 1), sym("h", pos=True, integer=True); P = P_(p); X = d.array("x", n, p)
        class Sub:
            """a subset whose scatter is symmetric"""
            def __init__(self, tag): self.tag = R_(tag)
            at = lambda self, nm, out=(), dt="f": A(out, sym(nm, P_(self.tag), *KV[:len(out)], integer=dt == "i"), dt)
            indices = property(lambda self: self.at("idx", (h,), "i")); location = property(lambda self: self.at("loc", (P,))); determinant = property(lambda self: self.at("det"))
            scale = property(lambda self: symmat(d, "scatter", P, lambda nm, *a: fun(nm, P_(self.tag), *a)))
        nb, np_ = sym("nb", pos=True, integer=True), sym("partitions", pos=True, integer=True); setlow(nb, 1); setlow(np_, 1); cfg = dict(random_seed=0, n_partitions=1, n_best_subsets=A((), sym("nbest", pos=True, integer=True), "i")) if C == "FastMCD" else {}
        o = getattr(m, C)(correct_covariance=cc, reweighting=rw, tolerance=R_(sym("tol", pos=True)), alpha=None, **cfg); cands = SymList(nb, lambda k: Sub(sym("cand", k)))
        o._perform_c_step = lambda s, Y: Sub(fun("step", P_(s.tag), P_(d.opaque("of", Y)))); o._correct_covariance = lambda Y, b: symmat(d, "corrected", P, lambda nm, *a: fun(nm, P_(b.tag), *a))
        if C == "FastMCD": o._partition_data = lambda Y: SymList(np_, lambda k: A((sym("rows", k, pos=True, integer=True), P), sym("part", k, KV[0], KV[1]))); o._get_initial_subsets = lambda Y, k: cands; o._perform_multiple_c_steps = lambda s, Y, n_iterations: s
        else: o._get_initial_best_subsets = lambda Z, Y, n, p: cands; o._Qn_scale = lambda Y, axis=0: d.opaque("qn", Y, out=(P,)); o._tau_scale = lambda Y, axis=0: d.opaque("tau", Y, out=(P,))
        sym_(d, "covariance", o.calculate_covariance(X))
    for C in ("FastMCD", "DetMCD"):
        unit(E, f"{C}: subset and consistency correction", M, lambda d, m, W, C=C: gs(d, m, W, C))
        for cc in (True, False):
            for rw in (True, False): unit(E, f"{C}.calculate_covariance (correct_covariance={cc}, reweighting={rw})", M, lambda d, m, W, a=(C, cc, rw): whole(d, m, W, *a))
    # ---- cellwise MCD
    M = "robpy.covariance.cellmcd"
    half = lambda k: lambda L: (L[k] + L[k].T) * 0.5        # the invariant 'is symmetric'
    def cs(d, m, W):
        n, p = d.int("n", 2), d.int("p", 1); N, P = P_(n), P_(p); X = d.array("x", n, p); o = m.CellMCD(max_c_steps=5); o.alpha_ = R_(sym("alpha", pos=True)); o.crit = R_(sym("crit", pos=True)); k = [0]
        def step(*a): k[0] += 1; return A((N, P), sym(f"w{k[0]}", KV[0], KV[1])), A((P,), sym(f"mu{k[0]}", KV[0])), A((P, P), sym(f"sigma{k[0]}", KV[0], KV[1]))
        def trunc(S, lo): d.prove_same("smallest eigenvalue asked for", lo, o.min_eigenvalue); return symmat(d, "truncated", P, lambda nm, *a: fun(nm, P_(d.opaque("tr", S)), *a))
        o._C_step = step; m.truncated_covariance = trunc; m.objective_function = lambda *a: R_(P_(d.opaque("objective", *a)))
        r = o._C_steps_until_convergence(X, A((P,), sym("mu0", KV[0])), symmat(d, "sigma0", P), A((P, P), sym("inv0", KV[0], KV[1])))
        sym_(d, "scatter after the concentration steps", r[1])
    unit(E, "CellMCD._C_steps_until_convergence", M, lambda d, m, W: single(d, lambda: cs(d, m, W), raises=("UnboundLocalError",)), invs=[lambda d: {"cov_old": half("cov_old"), "cov": lambda L: half("cov")(L) if isinstance(L.get("cov"), A) else L.get("cov")}, lambda d: {"cov_old": half("cov_old")}])
    def cm(d, m, W):
        n, p = d.int("n", 3), d.int("p", 1); N, P = P_(n), P_(p); X = d.array("x", n, p); o = m.CellMCD()
        sc = A((P,), sym("scales", KV[0], pos=True)); lc = A((P,), sym("locations", KV[0]))
        class Scaler:
            _opaque = True
            def __init__(self, **k): self.scales_ = sc; self.locations_ = lc
            def fit(self, X, ignore_nan=False): return self
            def transform(self, X): return (X - lc) / sc
        class Init:
            def __init__(self, **k): pass
            def fit(self, X): self.location_ = A((P,), sym("mu0", KV[0])); self.covariance_ = symmat(d, "sigma0", P); self.precision_ = symmat(d, "inv0", P)
        m.RobustScaler = Scaler; m.InitialDDCW = Init; o._check_data = lambda X: None; S = symmat(d, "steps", P); w = A((N, P), mk_ind("w"))
        o._C_steps_until_convergence = lambda *a: (A((P,), sym("mu", KV[0])), S, symmat(d, "inv", P), w)
        o._make_predictions = lambda *a: (A((N, P), sym("pred", KV[0], KV[1])), A((N, P), sym("condvar", KV[0], KV[1], pos=True)))
        C = o.calculate_covariance(X); sym_(d, "covariance", C); d.prove_same("covariance of the scaled data brought back by the scales", C, S * npm(d, "outer")(sc, sc)); d.prove_same("location brought back by the scales", o.location_, lc + A((P,), sym("mu", KV[0])) * sc); d.prove_same("the covariance reported", o.covariance_, C)
    unit(E, "CellMCD.calculate_covariance", M, lambda d, m, W: single(d, lambda: cm(d, m, W), raises=("ValueError",)))

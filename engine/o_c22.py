"""C22: scores, projections, orthonormal components, explained variances and the outlier map, function by function"""
from tform import *
import math
npm = lambda d, nm: d.handlers["numpy." + nm]
def sq(d, nm, n, P):
    """any symmetric matrix"""
    a = d.array(nm, n, n); return (a + a.T) / 2
def orth(d, nm, n, p, k): return npm(d, "linalg.eigh")(sq(d, nm, n, p))[1][:, :k]        # any matrix with orthonormal columns can be completed to such a basis
class Plot:
    """plotting has no effect on results"""
    _opaque = True
    def __getattr__(self, nm): return lambda *a, **k: (None, Plot()) if nm == "subplots" else Plot()
def eye(k): return A((P_(k), P_(k)), delta(KV[0], KV[1]))
def run(E):
    B = "robpy.pca.base"
    class Any: pass
    def setup(d, m, cls=None):
        n, p = d.int("n", 2), d.int("p", 2); k = d.int("k", 1); X = d.array("x", n, p)
        C = type("Concrete", (m.RobustPCA,), {"fit": lambda self, X: self}); o = C(n_components=k); o.location_ = d.array("loc", p); o.components_ = orth(d, "basis", p, p, k); o.explained_variance_ = A((P_(k),), sym("ev", KV[0], pos=True)); return n, p, k, X, o
    def pj(d, m, W):
        n, p, k, X, o = setup(d, m); X0 = A(X.shape_, X.body); C, l = o.components_, o.location_; d.prove_same("assumed of the components: orthonormal columns", C.T @ C, eye(k))
        d.prove_same("scores: the centered data times the components", o.transform(X), (X - l) @ C); pr = o.project(X); d.prove_same("projection: scores back in the original coordinates, centered", pr, (X - l) @ C @ C.T)
        d.prove_same("projecting again changes nothing", o.project(pr + l), pr); res = (X - l) - pr; d.prove_same("residuals are orthogonal to the components", res @ C, npm(d, "zeros")((n, k))); d.prove_same("projection and residual give back the centered data", pr + res, X - l)
        d.prove_same("the scores of the projection are the scores", o.transform(pr + l), o.transform(X)); d.prove_same("the data given are left as they were", X, X0); d.prove_same("location kept", o.location_, d.array("loc", p)); d.prove_same("components kept", o.components_, C)
    unit(E, "RobustPCA.transform, RobustPCA.project", B, pj)
    def om(d, m, W, frame):
        n, p, k, X, o = setup(d, m); seen = []
        def cut(od): seen.append(od); return R_(fun("od cutoff", P_(d.opaque("od", od)), pos=True))
        m.get_od_cutoff = cut; m.plt = Plot(); S, O, sc, oc = o.plot_outlier_map(FrameT(X, "idx", "cols") if frame else X, return_distances=True); C, l = o.components_, o.location_; Z = (X - l) @ C
        d.prove_same("score distances: root of the sum of squared scores over their explained variances", S, npm(d, "sqrt")(npm(d, "sum")(npm(d, "square")(Z) / o.explained_variance_, axis=1))); r = X - l - Z @ C.T
        d.prove_same("orthogonal distances: lengths of the residuals of the projection", O, npm(d, "sqrt")(npm(d, "sum")(r * r, axis=1))); d.prove_same("cutoff of the orthogonal distances is made from them", oc, R_(fun("od cutoff", P_(d.opaque("od", O)), pos=True)))
        d.prove_same("cutoff of the score distances: root of the 0.975 chi-squared quantile with as many degrees of freedom as components", sc, npm(d, "sqrt")(m.chi2.ppf(0.975, k)))
    for frame in (False, True): unit(E, f"RobustPCA.plot_outlier_map (frame={frame})", B, lambda d, m, W, frame=frame: om(d, m, W, frame))
    def consistent(d, o, p, V, k):
        """what every fitted object satisfies"""
        C = o.components_; d.prove_same("one component per column, in the coordinates of the data", list(C.shape_), [P_(p), P_(k)]); d.prove_same("one explained variance per component", list(arr(o.explained_variance_).shape_), [P_(k)]); d.prove_same("the number of components reported is theirs", P_(o.n_components), P_(k)); d.prove_same("components: orthonormal columns", C.T @ C, eye(k))
    def lo(d, m, W, given):
        n, p = d.int("n", 2), d.int("p", 2); X = d.array("x", n, p); X0 = A(X.shape_, X.body); med = d.array("l1", p); seen = []
        def l1(Y): seen.append(Y); return med
        m.l1median = l1; o = m.PCALocantore(n_components=d.int("k", 1) if given else None, k_min_var_explained=R_(sym("kmin", pos=True))); r = o.fit(X); d.record("fit returns the estimator", "proved" if r is o else "failed")
        d.record("location: the L1-median of the data", "proved" if len(seen) == 1 and d.same(seen[0], X0)[0] and o.location_ is med else "unsupported"); k = o.n_components; C = X0 - med; dist = npm(d, "sqrt")(npm(d, "sum")(C * C, axis=1)); w = A(dist.shape_, where(gt0(dist.body), inv(dist.body), ZERO)); s = C * w[:, None]
        V = npm(d, "linalg.eigh")(s.T @ s / n)[1]; full = V[:, ::-1]; d.prove_same("components: the last eigenvectors of the covariance of the spatial signs, largest eigenvalue first", o.components_, full[:, :k]); consistent(d, o, p, V, k)
        d.prove_same("explained variances: squared MAD of the scores of the same component", o.explained_variance_, npm(d, "square")(d.handlers["scipy.stats.median_abs_deviation"](C @ o.components_, axis=0, scale="normal"))); d.prove_same("the data given are left as they were", X, X0)
        ev = npm(d, "square")(d.handlers["scipy.stats.median_abs_deviation"](C @ full, axis=0, scale="normal")); soft(d, "explained variance ratios: cumulative share of the variances of all components", o.explained_variance_ratio_, (npm(d, "cumsum")(ev) / npm(d, "sum")(ev))[:k])
        if not given: soft(d, "number of components: the first whose cumulative share reaches the minimum", k, npm(d, "argmax")(npm(d, "cumsum")(ev) / npm(d, "sum")(ev) >= o.k_min_var_explained) + 1)
    for given in (True, False): unit(E, f"PCALocantore.fit (n_components {'given' if given else 'chosen'})", "robpy.pca.spca", lambda d, m, W, given=given: lo(d, m, W, given))
    def ro(d, m, W, given, mcd):
        n, p, r_ = d.int("n", 2), d.int("p", 2), d.int("r", 1); X = d.array("x", n, p); X0 = A(X.shape_, X.body); mean = npm(d, "mean")(X, axis=0); L = orth(d, "loadings", p, p, r_)
        class PCA:
            _opaque = True
            def __init__(self, *a, **k): pass
            def fit_transform(self, Y): soft(d, "the first step is a PCA of the data", Y, X0); self.components_ = L.T; return (Y - mean) @ L
            def inverse_transform(self, Z): return Z @ L.T + mean
        m.PCA = PCA; Z = (X0 - mean) @ L; m.stahel_donoho = lambda Y, **k: A((P_(n),), sym("sdo", P_(d.opaque("Y", Y)), KV[0], pos=True)); m.get_od_cutoff = lambda od: R_(fun("od cutoff", P_(d.opaque("od", od)), pos=True)); seen = []
        def named(nm, x, sh): seen.append((nm, x)); return A(sh, sym(f"{nm}{len(seen)}", KV[0], KV[1]))
        def cov(x, rowvar=True, **k): q = arr(x).shape_[1 if not rowvar else 0]; a = named("cov", x, (q, q)); return (a + a.T) / 2
        def rank(x, **k): r = sym(f"rank{len(seen)}", pos=True, integer=True); setlow(r, 1); return S_(r)
        npm0 = dict(d.handlers); d.handlers["numpy.cov"] = cov; d.handlers["numpy.linalg.matrix_rank"] = rank
        class MCD:
            _opaque = True
            def __init__(self, **k): pass
            def fit(self, Y): kk = arr(Y).shape_[1]; a = named("mcd", Y, (kk, kk)); self.covariance = (a + a.T) / 2; return self
        m.FastMCD = MCD; o = m.ROBPCA(n_components=d.int("k", 1) if given else None, alpha=0.75, final_MCD_step=mcd, k_min_var_explained=R_(sym("kmin", pos=True))); got = o.fit(X); d.record("fit returns the estimator", "proved" if got is o else "failed"); k = o.n_components
        consistent(d, o, p, None, k); d.prove_same("the data given are left as they were", X, X0); soft(d, "location: the mean of the data in the original coordinates", o.location_, mean)
        if [x[0] for x in seen] != ["cov", "cov"] + ["mcd"] * mcd and [x[0] for x in seen] != ["cov", "cov"]: raise Unsupported("other covariances")
        dec = lambda e: npm(d, "argsort")(e)[::-1]; mats = [A(sh, sym(f"{nm}{i}", KV[0], KV[1])) for i, (nm, sh) in enumerate([(x[0], (P_(r_),) * 2) for x in seen[:2]], 1)]; (e1, _), (e2, V2) = (npm(d, "linalg.eigh")((a + a.T) / 2) for a in mats)
        d.prove_same("explained variances: the largest eigenvalues of the covariance of the h-subset, in decreasing order", o.explained_variance_, e1[dec(e1)[:k]])
        if len(seen) == 2: d.prove_same("components: eigenvectors of the covariance of the regular rows, largest eigenvalue first, in the coordinates of the data", o.components_, L @ V2[:, dec(e2)[:k]])
        else:
            k1 = arr(seen[2][1]).shape_[1]; a = A((k1, k1), sym("mcd3", KV[0], KV[1])); d.prove_same("components: eigenvectors of the MCD scatter of the scores, largest eigenvalue first, in the coordinates of the data", o.components_, L @ V2[:, dec(e2)[:S_(k1)]] @ npm(d, "linalg.eigh")((a + a.T) / 2)[1][:, ::-1][:, :k])
            d.prove_same("the MCD is that of the scores", seen[2][1], (Z - npm(d, "mean")(Z, axis=0)) @ V2[:, dec(e2)[:S_(k1)]])
    for given in (True, False):
        for mcd in (True, False): unit(E, f"ROBPCA.fit (n_components {'given' if given else 'chosen'}, final_MCD_step={mcd})", "robpy.pca.robpca", lambda d, m, W, given=given, mcd=mcd: ro(d, m, W, given, mcd))
    E.assume("any matrix with orthonormal columns is the first columns of the eigenvectors of some symmetric matrix; eigh returns orthonormal eigenvectors", "sklearn's PCA: orthonormal loadings, inverse_transform their transpose plus the mean")

"""C15: reported covariance, precision, location and distances agree"""
from tform import *
import types
npm = lambda d, nm: d.handlers["numpy." + nm]
CLASSES = [("robpy.covariance.ogk", "OGK", {}), ("robpy.covariance.kendall", "KendallTau", {}), ("robpy.covariance.wrapping", "WrappingCovariance", {}), ("robpy.covariance.mcd", "FastMCD", {}), ("robpy.covariance.mcd", "DetMCD", {}), ("robpy.covariance.cellmcd", "CellMCD", {}), ("robpy.covariance.initial_ddcw", "InitialDDCW", {})]
def dist(d, X, loc, S):
    c = X - loc; return lift(lambda q: pw(q, Fr(1, 2)), npm(d, "sum")((c @ npm(d, "linalg.inv")(S)) * c, axis=1))
def pre(d): d.pinv_name = "pinv"
def run(E):
    def md(d, m, W, kind):
        n, p = d.int("n", 1), d.int("p", 1); X = d.array("x", n, p); S = d.array("s", p, p); loc = d.array("m", *((p,) if kind == "vector" else (S_(ONE), p) if kind == "row" else (p, S_(ONE)))); flat = npm(d, "reshape")(loc, (-1,)) if kind != "vector" else loc
        d.prove_same("distance of every row: square root of (x - m)' S^-1 (x - m)", m.mahalanobis_distance(X, loc, S), dist(d, X, flat, S))
        c = A((P_(n), P_(p)), subst(flat.body, {Kn(0): KV[1]})); d.prove_same("zero at the center", m.mahalanobis_distance(c, loc, S), A((P_(n),), ZERO))
    for k in ("vector", "row", "column"): unit(E, f"mahalanobis_distance (center given as {k})", "robpy.utils.distance", lambda d, m, W, k=k: md(d, m, W, k))
    def frame(d, m, W):
        n, p = d.int("n", 1), d.int("p", 1); X = d.array("x", n, p); S = d.array("s", p, p); loc = d.array("m", p)
        d.prove_same("frames give the distances of their values", m.mahalanobis_distance(d.handlers["pandas.DataFrame"](X), loc, S), dist(d, X, loc, S))
    unit(E, "mahalanobis_distance (frame)", "robpy.utils.distance", frame)
    def aff(d, m, W):
        # y = x B + b with C = B^-1: x - m = (y - m') C, and the inverse of B'SB is C S^-1 C'
        n, p = d.int("n", 1), d.int("p", 1); Y, mu, C, P = d.array("y", n, p), d.array("mu", p), d.array("c", p, p), d.array("pinv", p, p); S, T = d.array("s", p, p), d.array("t", p, p)
        old = npm(d, "linalg.inv"); seen = []
        def inv_(a):
            for q, r in ((S, P), (T, C @ P @ C.T)):
                if d.same(a, q)[0]: seen.append(q); return r
            raise Unsupported("inverse of another matrix")
        b = d.array("b", p)
        d.handlers["numpy.linalg.inv"] = inv_
        try: a1 = m.mahalanobis_distance(Y @ C + b, (mu.reshape(1, -1) @ C).flatten() + b, S); a2 = m.mahalanobis_distance(Y, mu, T)
        finally: d.handlers["numpy.linalg.inv"] = old
        d.prove_same("unchanged by a common affine transformation of data, center and scatter", a1, a2)
    unit(E, "mahalanobis_distance (affine invariance)", "robpy.utils.distance", aff)
    E.assume("the inverse of B'SB is C S^-1 C' with C the inverse of B (matrix algebra)")
    def fit(d, m, W, cls, sp, cen, fr):
        n, p = d.int("n", 2), d.int("p", 1); P = P_(p); X = d.array("x", n, p); kw = {}
        o = getattr(m, cls)(); o.store_precision = sp; o.assume_centered = cen; got = []
        C = A((P, P), d.opaque("estimate", X, out=(P, P)).body); L = A((P,), d.opaque("center", X, out=(P,)).body)
        def calc(Z): got.append(Z); o.location_ = L; return C
        o.calculate_covariance = calc; o.fit(d.handlers["pandas.DataFrame"](X) if fr else X)
        d.prove_same("the estimate is that of the given data", got[-1], X); d.prove_same("covariance reported", o.covariance_, C); d.prove_same("covariance property", o.covariance, C); d.prove_same("location reported", o.location_, L)
        if sp: d.prove_same("precision is the pseudo-inverse of the covariance reported", o.precision_, d.handlers["scipy.linalg.pinvh"](C))
        d.prove_same("robust distances: reported location and covariance", o._robust_distances, dist(d, X, L, C)); cl = npm(d, "cov")(X, rowvar=False)
        d.prove_same("classical distances: reported location, sample covariance", o._mahalanobis_distances, dist(d, X, L, cl)); d.prove_same("sample covariance", o.default_covariance_, cl)
    for mod, cls, kw in CLASSES:
        for sp, cen, fr in ((True, False, False), (False, False, False), (True, True, False), (True, False, True)): unit(E, f"{cls}.fit (store_precision={sp}, assume_centered={cen}, {'frame' if fr else 'array'})", mod, lambda d, m, W, a=(cls, sp, cen, fr): fit(d, m, W, *a), pre=pre)
    def loc(d, m, W, cen):
        # an estimator that sets no location of its own: the mean, or zero when the data are declared centered
        n, p = d.int("n", 2), d.int("p", 1); P = P_(p); X = d.array("x", n, p); o = m.RobustCovariance(assume_centered=cen); C = A((P, P), d.opaque("estimate", X, out=(P, P)).body); o.calculate_covariance = lambda Z: C; o.fit(X)
        L = A((P,), ZERO) if cen else npm(d, "mean")(X, axis=0); d.prove_same("location", o.location_, L); d.prove_same("distances with that location", o._robust_distances, dist(d, X, L, C))
    for cen in (True, False): unit(E, f"RobustCovariance.fit (no location of its own, assume_centered={cen})", "robpy.covariance.base", lambda d, m, W, cen=cen: loc(d, m, W, cen), pre=pre)

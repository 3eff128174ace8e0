"""C18: adding a constant vector to all observations adds it to the location; covariances, distances, directions, scores and flags do not change"""
from tcov import *
from tcov import pair as pair_
C = lambda k: sym("c", KV[k])
def acts(n, p):
    last = lambda x: x.dt == "f" and len(x.shape_) >= 1 and x.shape_[-1] is p
    first = lambda x: x.dt == "f" and len(x.shape_) >= 1 and x.shape_[0] is p
    return [IDENT, Act("x_.j + c_j", lambda x: add(C(len(x.shape_) - 1), x.body), last), Act("x_i. + c_i", lambda x: add(C(0), x.body), first)]
def change(x): return A(x.shape_, add(C(len(x.shape_) - 1), x.body), x.dt, x.filt)
def cov(d, a, b, centered=False):
    p = arr(a.location_).shape_[0]; c = A((p,), C(0))
    d.prove_same("location_ shifted by c", b.location_, a.location_ + c)
    for nm in ("covariance_", "default_covariance_", "precision_"): d.prove_same(nm + " unchanged", getattr(b, nm), getattr(a, nm))
    if hasattr(a, "correlation_"): d.prove_same("correlation_ unchanged", b.correlation_, a.correlation_)
    for nm in ("_robust_distances", "_mahalanobis_distances"): d.prove_same(nm + " unchanged", getattr(b, nm), getattr(a, nm))
def run(E):
    for what, mod, r, cut, k in ESTIMATORS:
        pair_(E, what, mod, acts, r, change, cov, cut, pre=lambda d: setattr(d, "cutdiff", True))

"""C17: multiplying every feature by its own positive constant multiplies location and covariance accordingly; correlations and distances do not change"""
from tcov import *
from tcov import pair as pair_

S = lambda k: sym("s", KV[k], pos=True)
def acts(n, p):
    f = lambda nm, g, ok: Act(nm, g, ok)
    last = lambda x: x.dt == "f" and len(x.shape_) >= 1 and x.shape_[-1] is p
    first = lambda x: x.dt == "f" and len(x.shape_) >= 1 and x.shape_[0] is p
    return [IDENT, f("s_j * x_.j", lambda x: mul(S(len(x.shape_) - 1), x.body), last), f("s_i * x_i.", lambda x: mul(S(0), x.body), first),
            f("s_i s_j * x_ij", lambda x: mul(mul(S(0), S(1)), x.body), lambda x: first(x) and last(x) and len(x.shape_) == 2),
            f("x_.j / s_j", lambda x: mul(inv(S(len(x.shape_) - 1)), x.body), last), f("x_i. / s_i", lambda x: mul(inv(S(0)), x.body), first)]
def change(x): return A(x.shape_, mul(S(len(x.shape_) - 1), x.body), x.dt, x.filt)
def vec(p, k=0): return A((p,), S(0))
def cov(d, a, b):
    p = arr(a.location_).shape_[0]; s = vec(p); ss = s[:, None] * s[None, :]
    d.prove_same("location_ multiplied by s_j", b.location_, s * a.location_)
    for nm in ("covariance_", "default_covariance_"): d.prove_same(nm + " multiplied by s_i s_j", getattr(b, nm), ss * getattr(a, nm))
    d.prove_same("precision_ divided by s_i s_j", b.precision_, a.precision_ / ss)
    if hasattr(a, "correlation_"): d.prove_same("correlation_ unchanged", b.correlation_, a.correlation_)
    for nm in ("_robust_distances", "_mahalanobis_distances"): d.prove_same(nm + " unchanged", getattr(b, nm), getattr(a, nm))
def run(E):
    E.assume("covariance matrices are nonsingular: the pseudo-inverse is the inverse", "wrapping: no column has a zero MAD")
    for what, mod, r, cut, k in ESTIMATORS: pair_(E, what, mod, acts, r, change, cov, cut, pre=lambda d: setattr(d, "madpos", True))

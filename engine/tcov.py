"""covariance estimators, run twice on related data (domain T)"""
from trun import *
from tdom import *
from core import World
import types
from o_c02 import Est, est_contract

CUT = 120
def og(d, m, W, X, niter=2, **k):
    f = lambda nm: (lambda v, axis=None: d.handlers["estimator." + nm](v, axis)); return m.OGK(n_iterations=niter, location_estimator=f("location"), scale_estimator=f("scale"), **k).fit(X)
def ke(d, m, W, X): m.Qn = lambda: Est(d); return m.KendallTau().fit(X)
ESTIMATORS = [(f"OGK.fit {k}", "robpy.covariance.ogk", lambda d, m, W, X, k=k: og(d, m, W, X, **k), CUT, k) for k in (dict(niter=0), dict(niter=1), dict(), dict(niter=3), dict(reweighting=True), dict(assume_centered=True))] + [
    ("KendallTau.fit", "robpy.covariance.kendall", ke, 0, {}),
    ("WrappingCovariance.fit", "robpy.covariance.wrapping", lambda d, m, W, X: m.WrappingCovariance().fit(X), CUT, {})]
def pair(E, what, mod, setup, run, change, cmp, cut=0, data=None, pre=None):
    """run on the data and on the changed data"""
    d = TDomain(); d.engine = E; d.acts = [IDENT]; d.cutsize = cut
    with d:
        est_contract(d); pre and pre(d); W = World(d); m = W.module(mod)
        def f():
            n, p = d.int("n", 2), d.int("p", 1); d.acts = setup(P_(n), P_(p)); x = d.array("x", n, p) if data is None else data(d, n, p)
            d.relate(lambda: run(d, m, W, x), lambda: run(d, m, W, change(x)), lambda a, b: cmp(d, a, b))
        E.unit(d, what, f)

"""contracts of UnivariateMCD (shared by C03 and C05)"""
import z3, core
from sdom import *
from sdom import K
from core import World, PathEnd
from sdomain import LoopSpec, Z
MCD = "robpy.univariate.mcd"

def window(d, X, h, t):
    """X[t : t + h] of the ordered sample"""
    S = d.handlers["numpy.sort"](X); return d.getitem(S, slice(Num(t), Num(t + h)))
def wvar(d, X, h, t):
    v = d.handlers["numpy.var"](window(d, X, h, t)).e
    d.assume(v < INF); return v
def factor(d, h, n):
    q = d.handlers["scipy.stats.chi2.ppf"](Num(real(h) / real(n)), df=1); return (real(h) / real(n)) / d.handlers["scipy.stats.chi2.cdf"](q, df=3).e
def scan_loop(d, X, h, w):
    """the window scan: the best so far is the variance of the window index_best and not above any window already seen (w: any window)"""
    def inv(st, k):
        wvar(d, X, h, k); b, j = d.num(st["var_best"]).e, d.num(st["index_best"]).e
        return [("the best so far is the variance of the window remembered", z3.Implies(k > 0, b == wvar(d, X, h, j))), ("the window remembered is one already seen", z3.Implies(k > 0, z3.And(j >= 0, j < k))),
                ("no window already seen has a smaller variance", z3.Implies(z3.And(w < k, w >= 0), b <= wvar(d, X, h, w))), ("before the first window: infinite", z3.Implies(k == 0, b == INF))]
    d.loops[(f"{MCD}:UnivariateMCD._get_raw_estimates", 0)] = LoopSpec(inv, havoc={"var_new": lambda d, st: Num(d.fresh("vn"))})

"""C26: adjusted_boxplot"""
import z3, core
from sdom import *
from core import World

def run(E):
    E.trust("np.min/max: attained and bounding; np.median/np.percentile: between the extremes, ordered by their level (q1 <= median <= q3)", "statsmodels medcouple: a function of the column, in [-1, 1]", "exp positive, exp(0)=1")
    E.assume("real arithmetic for floating point", "no missing values, n >= 1")
    for kind in ("array", "frame", "vector", "series"):
        d = E.sdomain()
        with d:
            m = World(d).module("robpy.univariate.adjusted_boxplot")
            n, p = d.int("n"), d.int("p"); j, i = z3.Ints("j i"); d.base += [n.e >= 1, p.e >= 1, j >= 0, j < p.e, i >= 0, i < n.e]; d.index_terms += [j, i]
            def f():
                X = d.array("x", n, p) if kind in ("array", "frame") else d.array("x", n)
                arg = Frame(X, "DataFrame" if kind == "frame" else "Series") if kind in ("frame", "series") else X
                out = m.adjusted_boxplot(arg, plot=False)
                if kind in ("vector", "series"): b = d.iter(out); b = (b[0] if d.conc(b) else b.fn(z3.IntVal(0))); col = X
                else: b = out[Num(j)]; col = d.getitem(X, (slice(None), Num(j)))
                H = d.handlers; g = lambda v: d.num(v).e
                med, q1, q3, lw, uw = g(b.median), g(b.q1), g(b.q3), g(b.lower_whisker), g(b.upper_whisker)
                mn, mx = H["numpy.min"](col).e, H["numpy.max"](col).e; mc = H["statsmodels.stats.stattools.medcouple"](col).e
                Q1, Q3, M = H["numpy.percentile"](col, 25).e, H["numpy.percentile"](col, 75).e, H["numpy.median"](col).e
                d.prove("the box is the quartiles and the median of the column alone", z3.And(med == M, q1 == Q1, q3 == Q3))
                d.prove("minimum <= lower whisker", mn <= lw); d.prove("lower whisker <= first quartile", lw <= q1)
                d.prove("first quartile <= median", q1 <= med); d.prove("median <= third quartile", med <= q3)
                d.prove("third quartile <= upper whisker", q3 <= uw); d.prove("upper whisker <= maximum", uw <= mx)
                iqr = Q3 - Q1; hi = lambda a, b: z3.If(a >= b, a, b); lo = lambda a, b: z3.If(a <= b, a, b)
                fl = lambda k: Q1 - RV("3/2") * EXP(k * mc) * iqr; fu = lambda k: Q3 + RV("3/2") * EXP(k * mc) * iqr
                d.prove("right-skewed: lower whisker cut at q1 - 1.5 exp(-4 mc) iqr", z3.Implies(mc > 0, lw == hi(mn, fl(RV(-4)))))
                d.prove("right-skewed: upper whisker cut at q3 + 1.5 exp(3 mc) iqr", z3.Implies(mc > 0, uw == lo(mx, fu(RV(3)))))
                d.prove("left-skewed: lower whisker cut at q1 - 1.5 exp(-3 mc) iqr", z3.Implies(mc < 0, lw == hi(mn, fl(RV(-3)))))
                d.prove("left-skewed: upper whisker cut at q3 + 1.5 exp(4 mc) iqr", z3.Implies(mc < 0, uw == lo(mx, fu(RV(4)))))
                d.prove("symmetric: the whiskers are cut at 1.5 iqr", z3.Implies(mc == 0, z3.And(lw == hi(mn, Q1 - RV("3/2") * iqr), uw == lo(mx, Q3 + RV("3/2") * iqr))))
                if kind in ("array", "frame"): d.prove("one container per column", d.builtins()["len"](out) == p)
            E.unit(d, f"adjusted_boxplot({kind})", f)

"""C08: RobustScaler"""
import z3, core
from sdom import *
from sdom import K
from core import World
from sdomain import LoopSpec, Z

def estimator(d):
    """contract of a univariate estimator: location and scale are functions of the column (and of ignore_nan) alone; it keeps only its last fit"""
    class Est:
        def fit(s, col, ignore_nan=False):
            a = d.arr(col)
            if a.ndim != 1: raise ValueError("X must be univariate")
            b, ok = subst(real(a.body), [(K[0], Z)]), subst(a.ok, [(K[0], Z)])
            g = lambda nm: Num(d.functional(nm, b, a.shape_[0], ok, (bool(ignore_nan),)))
            s.location, s.scale = g("loc"), g("scl"); return s
    return Est()

def run(E):
    E.trust("numpy elementwise arithmetic as real arithmetic", "a univariate estimator's location and scale are functions of the one-dimensional sample and of ignore_nan (C23, C24); the estimator object holds the result of its last fit")
    E.assume("real arithmetic for floating point: the inverse restores the data up to rounding")
    for kind in ("array", "frame", "vector"):
        for ign in (False, True):
            d = E.sdomain()
            with d:
                m = World(d).module("robpy.preprocessing.scaling")
                n, p, n2 = d.int("n"), d.int("p"), d.int("n2"); i, j = z3.Ints("i j"); d.base += [n.e >= 1, p.e >= 1, n2.e >= 1, i >= 0, j >= 0, i < n2.e]
                if kind == "vector": d.base += [j == 0]
                d.base += [j < p.e]; d.index_terms += [i, j]
                mk = lambda nm, n: d.array(nm, n, ok=True) if kind == "vector" else d.array(nm, n, p, ok=True)
                wrapf = lambda a: Frame(a) if kind == "frame" else a
                col = lambda a: a if kind == "vector" else d.getitem(a, (slice(None), Num(j)))
                for cen in (True, False):
                    for sc in (True, False):
                        def f():
                            X = mk("x", n); r = estimator(d).fit(col(X), ign)
                            eL, eS = (r.location.e if cen else RV(0)), (r.scale.e if sc else RV(1))
                            def inv(st, k):
                                s = st["self"]; l, c = s.locations_.at(j).e, s.scales_.at(j).e
                                return [("columns already visited hold their own location", z3.Implies(j < k, l == eL)), ("columns already visited hold their own scale", z3.Implies(j < k, c == eS)),
                                        ("columns not visited keep location 0 and scale 1", z3.Implies(j >= k, z3.And(l == 0, c == 1)))]
                            def objs(d, st):
                                s = st["self"]; s.locations_ = d.fresh_like(s.locations_, "locs"); s.scales_ = d.fresh_like(s.scales_, "scls")
                            d.loops[("robpy.preprocessing.scaling:RobustScaler.fit", 0)] = LoopSpec(inv, objs=objs)
                            s = m.RobustScaler(scale_estimator=estimator(d), with_centering=cen, with_scaling=sc)
                            s.fit(wrapf(X), ignore_nan=ign)
                            nm = f"centering {'on' if cen else 'off'}, scaling {'on' if sc else 'off'}: "
                            L, S = s.locations_.at(j).e, s.scales_.at(j).e
                            d.prove(nm + "location is the estimator's on the column alone" if cen else nm + "location 0", L == eL)
                            d.prove(nm + "scale is the estimator's on the column alone" if sc else nm + "scale 1", S == eS)
                            d.prove("one location and scale per column", z3.And(s.locations_.shape_[0] == (1 if kind == "vector" else p.e), s.scales_.shape_[0] == (1 if kind == "vector" else p.e)))
                            Y = mk("y", n2); y = Y.at(i) if kind == "vector" else Y.at(i, j)
                            t = s.transform(wrapf(Y)); tv = t.at(i, j)
                            d.prove(nm + "transformed cell is (x - location) / scale", tv.e == (y.e - eL) / eS)
                            back = s.inverse_transform(t).at(i, j)
                            d.prove(nm + "the inverse transform restores every cell (scale nonzero)", z3.Implies(eS != 0, back.e == y.e))
                            d.prove("a cell is missing after transform exactly when it was missing (scale nonzero)", z3.Implies(eS != 0, tv.ok == y.ok))
                            d.prove("missing cells stay missing through the inverse, others stay present", z3.Implies(eS != 0, back.ok == y.ok))
                            w = s.inverse_transform(wrapf(Y)).at(i, j)
                            d.prove(nm + "inverse transform of new data is x * scale + location", w.e == y.e * eS + eL)
                        E.unit(d, f"RobustScaler({kind}, ignore_nan={ign})", f)

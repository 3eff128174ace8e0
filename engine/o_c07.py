"""C07: wrapping_transformation"""
import z3, core
from sdom import *
from sdom import K
from core import World

def run(E):
    E.trust("numpy elementwise operations, np.mean, np.std (column sums of the elements) as real arithmetic", "tanh: odd sign, |tanh| < 1, strictly increasing")
    E.assume("real arithmetic for floating point", "0 < b <= c, q1 > 0, q2 > 0; location and scale estimators return one number per column, scale >= 0 (C03)")
    for rescale in (False, True):
        d = E.sdomain()
        with d:
            d.naming = rescale
            wt = World(d).module("robpy.preprocessing.utils").wrapping_transformation
            n, p = d.int("n"), d.int("p"); d.base += [n.e >= 1, p.e >= 1]
            b, c, q1, q2 = (z3.Real(s) for s in ("b", "c", "q1", "q2")); d.base += [b > 0, c >= b, q1 > 0, q2 > 0]
            L, S = z3.Function("L", I, R), z3.Function("S", I, R)
            d.fact_gens["S"] = lambda a, ts: [a >= 0]
            i, j, i2 = z3.Ints("i j i2"); d.base += [i >= 0, i < n.e, i2 >= 0, i2 < n.e, j >= 0, j < p.e]
            d.index_terms += [i, j]
            xf = z3.Function("x", I, I, R); x, x2 = xf(i, j), xf(i2, j); l, s = L(j), S(j)
            loc = lambda X, axis=0: Arr((p.e,), L(K[0])); scl = lambda X, axis=0: Arr((p.e,), S(K[0]))
            call = lambda X: wt(X, b=Num(b), c=Num(c), q1=Num(q1), q2=Num(q2), rescale=rescale, location_estimator=loc, scale_estimator=scl)
            def f():
                X = d.array("x", n, p); out = call(X); v = out.at(i, j)
                z = (x - l) / s; az = z3.If(z >= 0, z, -z)
                if not rescale:
                    d.prove("every cell is finite", v.ok)
                    d.prove("|z| < b: the cell is unchanged", z3.Implies(z3.And(s > 0, az < b), v.e == x))
                    d.prove("|z| > c: the cell becomes the location", z3.Implies(z3.And(s > 0, az > c), v.e == l))
                    t = q1 * TANH(q2 * (c - az))
                    d.prove("b <= |z| <= c, z > 0: location + scale * q1 tanh(q2 (c - |z|))", z3.Implies(z3.And(s > 0, az >= b, az <= c, z > 0), v.e == l + s * t))
                    d.prove("b <= |z| <= c, z < 0: location - scale * q1 tanh(q2 (c - |z|))", z3.Implies(z3.And(s > 0, az >= b, az <= c, z < 0), v.e == l - s * t))
                    d.prove("same side of the location, at most q1 scales away beyond b", z3.Implies(z3.And(s > 0, az >= b), z3.And(z3.Implies(z > 0, z3.And(v.e >= l, v.e <= l + s * q1)), z3.Implies(z < 0, z3.And(v.e <= l, v.e >= l - s * q1)))))
                    d.prove("equal z-scores map to equal values", z3.Implies(x == x2, v.e == out.at(i2, j).e))
                    refl = Arr(X.shape_, 2 * L(K[1]) - X.body)
                    d.prove("the map is odd around the location", call(refl).at(i, j).e == 2 * l - v.e)
                    d.prove("a constant column is returned unchanged", z3.Implies(z3.And(s == 0, x == l), v.e == x))
                else:
                    col = d.getitem(out, (slice(None), Num(j)))
                    m = d.handlers["numpy.mean"](col); vr = d.handlers["numpy.var"](col)
                    d.assume(s > 0)
                    d.prove("the mean of the column is its robust location", m.e == l)
                    # the wrapped z-scores of the column have a positive standard deviation: the only one the code computes
                    for r in roots(d, v.e): d.assume(r > 0)
                    d.prove("the standard deviation of the column is its robust scale (squares)", vr.e == s * s)
                    d.prove("every cell is finite", v.ok)
            E.unit(d, f"wrapping_transformation(rescale={rescale})", f)
            if rescale:
                def g():
                    X = d.array("x", n, p); v = call(X).at(i, j)
                    d.assume(s == 0); d.assume(x == l)
                    d.prove("a constant column is returned unchanged", v.e == x); d.prove("its cells are finite", v.ok)
                E.unit(d, "wrapping_transformation(rescale=True), scale zero", g)
                def mono():
                    X = d.array("x", n, p); out = call(X); d.assume(s > 0)
                    d.prove("equal z-scores map to equal values", z3.Implies(x == x2, out.at(i, j).e == out.at(i2, j).e))
                E.unit(d, "wrapping_transformation(rescale=True), columns", mono)

def roots(d, e):
    out = []; seen = set(); st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id()); st += x.children()
        if z3.is_app(x) and x.decl().name() == "sqrt": out.append(x)
    return out

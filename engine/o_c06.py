"""C06: rho and psi of every provided loss"""
import z3, core
from sdom import *

def deriv(e, x):
    """symbolic derivative of a z3 term with respect to the constant x (branch conditions kept: valid off their boundaries)"""
    if e.eq(x): return RV(1)
    if not has(e, x): return RV(0)
    k = e.decl().kind(); c = e.children()
    if k == z3.Z3_OP_ADD: return z3.Sum(*[deriv(y, x) for y in c])
    if k == z3.Z3_OP_SUB:
        r = deriv(c[0], x)
        for y in c[1:]: r = r - deriv(y, x)
        return r
    if k == z3.Z3_OP_UMINUS: return -deriv(c[0], x)
    if k == z3.Z3_OP_MUL:
        out = RV(0)
        for i in range(len(c)):
            t = deriv(c[i], x)
            for j in range(len(c)):
                if j != i: t = t * c[j]
            out = out + t
        return out
    if k == z3.Z3_OP_DIV: return (deriv(c[0], x) * c[1] - c[0] * deriv(c[1], x)) / (c[1] * c[1])
    if k == z3.Z3_OP_ITE: return z3.If(c[0], deriv(c[1], x), deriv(c[2], x))
    if e.decl().name() == "sqrt": return deriv(c[0], x) / (2 * e)
    if e.decl().name() == "exp": return e * deriv(c[0], x)
    if e.decl().name() == "log": return deriv(c[0], x) / c[0]
    if e.decl().name() == "tanh": return (1 - e * e) * deriv(c[0], x)
    raise core.Unsupported(f"derivative of {e.decl()}")

def freeze(d, e, side):
    """decide every branch condition of e on the region `side`"""
    if e.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = e.children()
        if d.entails(c, 3000, side) == "proved": return freeze(d, a, side)
        if d.entails(z3.Not(c), 3000, side) == "proved": return freeze(d, b, side)
        raise core.Unsupported(f"branch {c} is not decided on the region")
    if not e.children(): return e
    return z3.substitute(e, *[(c, freeze(d, c, side)) for c in e.children()]) if any(True for _ in e.children()) else e

def run(E):
    d = E.sdomain()
    with d:
        W = core.World(d); m = W.module("robpy.utils.rho")
        classes = [n for n, c in vars(m).items() if isinstance(c, type) and issubclass(c, m.BaseRho) and c is not m.BaseRho]
        E.trust("numpy elementwise operations (abs, where, sign, power, arithmetic) as real arithmetic")
        E.assume("real arithmetic for floating point", "the tuning constant of a loss is positive", "the loss has its kinks at 0 and at +-(tuning constant) only (otherwise the obligation is not discharged)")
        n = z3.Int("n"); d.base += [n >= 1]
        for name in classes:
            cls = getattr(m, name)
            X, Y = d.array("x", d.int("n")), d.array("y", d.int("n"))
            i = z3.Int("i"); x, y = z3.Function("x", I, R)(i), z3.Function("y", I, R)(i); xr = z3.Real("xr")
            def f():
                c = z3.Real("c"); d.assume(c > 0); d.assume(z3.And(i >= 0, i < n))
                r = cls(Num(c)); rho, psi = r.rho(X).at(i), r.psi(X).at(i)
                d.prove("rho and psi are defined everywhere", And(rho.ok, psi.ok))
                rho, psi = rho.e, psi.e; at = lambda e, v: subst(e, [(x, v)])
                d.prove("rho(0) = 0", at(rho, RV(0)) == 0)
                d.prove("rho is nonnegative", rho >= 0)
                d.prove("rho is even", r.rho(-X).at(i).e == rho)
                d.prove("rho does not decrease with |x|", z3.Implies(z3.And(absz(x) <= absz(y)), rho <= r.rho(Y).at(i).e))
                d.prove("psi is odd", r.psi(-X).at(i).e == -psi)
                d.prove("psi has the sign of x", z3.And(z3.Implies(x >= 0, psi >= 0), z3.Implies(x <= 0, psi <= 0)))
                d.prove("psi(0) = 0", at(psi, RV(0)) == 0)
                # derivative: on each open region the loss is smooth and its derivative is psi; at the borders the pieces meet
                regs = {"x < -c": xr < -c, "-c < x < 0": z3.And(xr > -c, xr < 0), "0 < x < c": z3.And(xr > 0, xr < c), "x > c": xr > c}
                pieces, ppsi = {}, {}
                for rn, cond in regs.items():
                    pieces[rn] = freeze(d, at(rho, xr), [cond]); ppsi[rn] = freeze(d, at(psi, xr), [cond])
                    d.prove(f"psi is the derivative of rho on {rn}", z3.Implies(cond, deriv(pieces[rn], xr) == ppsi[rn]))
                for (a, b), v in ((("x < -c", "-c < x < 0"), -c), (("-c < x < 0", "0 < x < c"), RV(0)), (("0 < x < c", "x > c"), c)):
                    for side in (a, b):
                        d.prove(f"rho is continuous at the border of {a} and {b} (from {side})", subst(pieces[side], [(xr, v)]) == at(rho, v))
                if name == "TukeyBisquare":
                    for k in (rho, psi): pass
                    d.prove("beyond the cutoff rho = c^2/6", z3.Implies(absz(x) >= c, rho == c * c / 6))
                    d.prove("beyond the cutoff psi = 0", z3.Implies(absz(x) >= c, psi == 0))
                if name == "Huber":
                    d.prove("|psi| <= b", z3.And(psi <= c, psi >= -c))
                    d.prove("beyond b rho is linear: b|x| - b^2/2", z3.Implies(absz(x) >= c, rho == c * absz(x) - c * c / 2))
                # elementwise: the value at i depends on x(i) only
                d.prove("rho acts element by element", subst(rho, [(x, z3.Real("v"))]) == subst(r.rho(Y).at(i).e, [(y, z3.Real("v"))]))
            E.unit(d, f"{name}.rho/psi", f)

def absz(e): return z3.If(e >= 0, e, -e)

from lib import *
from robpy.utils.rho import TukeyBisquare, Huber, BaseRho
import robpy.utils.rho as R

@case("C06", quick=600)
def rho(rng, k):
    c = float([1.56, 1.5, 3.0, 4.685, .5, 1.0, 2.0, 10.0][k % 8] if k % 3 else 10 ** rng.uniform(-2, 2))
    L = [TukeyBisquare(c=c), Huber(b=c)][k // 8 % 2]; nm = type(L).__name__ + f"({c})"
    x = c * rng.uniform(0, 3, size=41); x[:3] = [0, c, np.nextafter(c, 9e9)]; x[3] = c * (1 - 1e-9); x[4] = c * (1 + 1e-9); x[5] = np.nextafter(c, 0); x[6] = c * 1e3; x[7] = c * 1e-6
    x = np.sort(x)
    r, p = L.rho(x), L.psi(x)
    req(L.rho(np.zeros(1))[0] == 0, nm + ": rho(0)"); req(L.psi(np.zeros(1))[0] == 0, nm + ": psi(0)")
    eq(L.rho(-x), r, nm + ": rho not even", rtol=1e-12, x=x); eq(L.psi(-x), -p, nm + ": psi not odd", rtol=1e-12, x=x)
    req((r >= -1e-14 * c * c).all() and (p >= -1e-14 * c).all(), nm + ": sign", x=x, rho=r, psi=p)
    req((np.diff(r) >= -1e-12 * r[1:]).all(), nm + ": rho not nondecreasing", x=x, rho=r)
    g = np.linspace(0, 3 * c, 4001); gr = L.rho(g); st = g[1] - g[0]
    req(np.max(np.abs(np.diff(gr))) <= 1.01 * c * st + 1e-12 * c * c, nm + ": rho jumps")
    z = np.concatenate([x[np.abs(x / c - 1) > 1e-4], -x[np.abs(x / c - 1) > 1e-4]]); z = z[np.abs(z) < 20 * c]; e = 1e-5 * c
    eq((L.rho(z + e) - L.rho(z - e)) / (2 * e), L.psi(z), nm + ": psi is not the derivative of rho", atol=1e-6 * c, x=z)
    if isinstance(L, TukeyBisquare):
        eq(L.rho(x[x >= c]), np.full((x >= c).sum(), c * c / 6), nm + ": rho beyond the cutoff", rtol=1e-12); eq(L.psi(x[x >= c]), 0 * x[x >= c], nm + ": psi beyond the cutoff", atol=1e-12 * c)
        eq(r, np.where(x <= c, x**2 / 2 - x**4 / (2 * c**2) + x**6 / (6 * c**4), c**2 / 6), nm + ": rho formula", rtol=1e-10)
    else:
        req(np.abs(p).max() <= c * (1 + 1e-12), nm + ": psi bound"); eq(r[x > c], c * x[x > c] - c * c / 2, nm + ": linear part", rtol=1e-12)
    X2 = rng.normal(size=(3, 4)) * c
    eq(L.rho(X2), np.array([[float(L.rho(v)) for v in row] for row in X2]), nm + ": elementwise", rtol=1e-12); eq(L.psi(X2), np.array([[float(L.psi(v)) for v in row] for row in X2]), nm + ": elementwise", rtol=1e-12)
    xi = np.arange(-6, 7)
    eq(L.rho(xi), L.rho(xi.astype(float)), nm + ": integer data", rtol=1e-12); eq(L.psi(xi), L.psi(xi.astype(float)), nm + ": integer data", rtol=1e-12)

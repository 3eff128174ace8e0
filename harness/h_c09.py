from lib import *
from robpy.preprocessing import RobustPowerTransformer as T
LAM = [-4., -2., -1., -.5, -1e-3, 0., 1e-3, .5, 1., 1.5, 1.999, 2., 2.001, 2.5, 3., 5.]

def bc(x, l): return np.log(x) if l == 0 else (x ** l - 1) / l
def yj(x, l):
    x = np.asarray(x, float); r = np.empty_like(x); p = x >= 0
    r[p] = np.log1p(x[p]) if l == 0 else ((1 + x[p]) ** l - 1) / l
    r[~p] = -np.log1p(-x[~p]) if l == 2 else -((1 - x[~p]) ** (2 - l) - 1) / (2 - l)
    return r

def lam(rng, k):
    if k % 5 == 4: return np.float64(rng.choice([0., 2., 1.]) + rng.choice([-1, 1]) * 10.0 ** rng.uniform(-7, -1))   # close to the special cases
    return np.float64(LAM[k % len(LAM)] if k % 3 else rng.uniform(-4, 6))

@case("C09", quick=500)
def forward_inverse(rng, k):
    l = lam(rng, k); t = T()
    x = np.sort(np.unique(np.concatenate([10.0 ** rng.uniform(-2, 1.0, size=12), [1.0, .5, 2.0]])))
    y = t._transf_boxcox(x, l)[0]; cond = 1e-15 / max(1e-9, min(abs(l) or 1, abs(2 - l) or 1)); eq(y, bc(x, l), f"Box-Cox lambda={l}", rtol=1e-9 + cond)
    sens = (x[1:] ** (l - 1)); ok = np.abs(np.diff(y)) > 30 * cond
    req((np.diff(y) >= -30 * cond).all() and (np.diff(y)[ok] > 0).all(), f"Box-Cox not increasing, lambda={l}", x=x, y=y)
    z = t._inv_transf_boxcox(y, l); bad = np.abs(z - x) > x * (1e-8 + 30 * cond) + 1e-15 / np.minimum(1, x ** l); well = x ** l > 1e-8
    req((~bad[well]).all(), f"Box-Cox inverse, lambda={l}", x=x, got=z)
    s = np.sort(np.concatenate([-(10.0 ** rng.uniform(-2, .9, size=8)), 10.0 ** rng.uniform(-2, .9, size=8), [0., 1., -1.]]))
    y = t._transf_yeojohnson(s, l)[0]; eq(y, yj(s, l), f"Yeo-Johnson lambda={l}", rtol=1e-9 + cond)
    req((np.diff(y) >= -30 * cond).all(), f"Yeo-Johnson not increasing, lambda={l}", x=s, y=y)
    well = np.where(s >= 0, (1 + s) ** l, (1 - s) ** (2 - l)) > 1e-8
    z = t._inv_transf_yeojohnson(y, l); req((np.abs(z - s)[well] <= (1e-8 + 100 * cond) * (1 + np.abs(s[well])) + 1e-14 / np.where(s >= 0, (1 + s) ** l, (1 - s) ** (2 - l))[well]).all(), f"Yeo-Johnson inverse, lambda={l}", x=s, got=z)
    raises(ValueError, lambda: t._transf_boxcox(np.array([1., 0., 2.]), l), "Box-Cox of zero"); raises(ValueError, lambda: t._transf_boxcox(np.array([1., -2., 2.]), l), "Box-Cox of negative data")

@case("C09", quick=500)
def rectified(rng, k):
    l = lam(rng, k); t = T(); n = int(rng.integers(8, 40))
    x = np.sort(np.exp(rng.normal(size=n)))
    r = t._transf_boxcox_rectified(x, l)[0]
    req(finite(r), f"rectified Box-Cox not finite, lambda={l}", x=x, r=r); req((np.diff(r) >= -1e-12 * np.abs(r).max()).all(), f"rectified Box-Cox not increasing, lambda={l}", x=x, r=r)
    q1, q3 = x[int(np.ceil(n / 4) - 1)], x[int(n - np.ceil(n / 4))]
    f = bc(x, l); i = (x >= min(q1, 1)) & (x <= max(q3, 1)) if l != 1 else np.ones(n, bool)
    def dev(a, b): return np.abs(a - b) > 1e-8 * (1 + np.abs(b))
    i = np.zeros(n, bool)
    if l < 1 and q3 >= 1: i = x <= q3
    if l > 1 and q1 <= 1: i = x >= q1
    if l == 1: i[:] = True
    if l > 1: i &= f > -1 / l + 3e-5
    if l < 0: i &= f < -1 / l - 3e-5
    req(not dev(r, f)[i].any(), f"rectified Box-Cox differs from Box-Cox between its changepoints, lambda={l}", x=x[i], r=r[i], f=f[i])
    g = np.sort(rng.normal(size=n) * 2 + [0, 0, 4, -4][k % 4])
    r = t._transf_yeojohnson_rectified(g, l)[0]; f = yj(g, l)
    req(finite(r), f"rectified Yeo-Johnson not finite, lambda={l}", x=g, r=r); req((np.diff(r) >= -1e-10 * np.abs(r).max()).all(), f"rectified Yeo-Johnson not increasing, lambda={l}", x=g, r=r)
    q1, q3 = g[int(np.ceil(n / 4) - 1)], g[int(n - np.ceil(n / 4))]
    i = np.ones(n, bool) if l == 1 else (g <= q3 if (l < 1 and q3 >= 0) else (g >= q1 if (l > 1 and q1 <= 0) else np.zeros(n, bool)))
    if l > 2: i &= f > 1 / (2 - l) + 3e-5
    if l < 0: i &= f < -1 / l - 3e-5
    req(not dev(r, f)[i].any(), f"rectified Yeo-Johnson differs from Yeo-Johnson between its changepoints, lambda={l}", x=g[i], r=r[i], f=f[i])
    # continuity: insert points close to the changepoint
    cp = (t._get_rectified_yeojohnson_changepoint(g, l) if l != 1 else None)
    if cp is not None:
        cp = float(cp); h = np.sort(np.concatenate([g, [cp, cp - 1e-9, cp + 1e-9]])); h = np.sort(np.clip(h, g[0], g[-1]))
        if True:
            import types
            u = T(); u._get_rectified_yeojohnson_changepoint = lambda x, my_lambda, **kw: np.float64(cp)
            rr = u._transf_yeojohnson_rectified(h, l)[0]; near = np.abs(h - cp) <= 2e-9
            req(np.ptp(rr[near]) <= 1e-5 * (1 + np.abs(rr[near]).max()), f"rectified Yeo-Johnson jumps at its changepoint {cp}, lambda={l}", x=h[near], r=rr[near])

@case("C09", quick=90, tmo=120)
def fitted(rng, k):
    n = int(rng.integers(15, 50)); std = bool(k % 2); meth = ["yeojohnson", "boxcox", "auto"][k // 2 % 3]
    x = [np.exp(rng.normal(size=n)), rng.gamma(2., size=n) + .1, rng.normal(size=n) ** 2 + .2, np.exp(rng.normal(size=n) * .4) * 50][k // 6 % 4]
    if meth == "yeojohnson" and k % 4 < 2: x = x - np.median(x)
    x = rng.permutation(x)
    if k % 5 == 0 and meth == "yeojohnson": x = np.round(x * 4)
    if k % 5 == 0 and (np.median(np.abs(x - np.median(x))) == 0): raise Skip()
    t = T(method=meth, standardize=std).fit(x); l = t.lambda_rew
    f = bc if t.method_ == "boxcox" else yj
    u = x
    if std: u = x / t.scale_pre if t.method_ == "boxcox" else (x - t.location_pre) / t.scale_pre
    e = f(u, l); e = (e - t.location_post) / t.scale_post if std else e
    y = t.transform(x); eq(y, e, f"transform, {t.method_}, lambda={l}", rtol=1e-9)
    def cond(u): return (u ** l if t.method_ == "boxcox" else np.where(u >= 0, (1 + np.abs(u)) ** l, (1 + np.abs(u)) ** (2 - l)))
    sc = (t.scale_pre if std else 1.)
    def back(v, uu, nm):
        w = t.inverse_transform(t.transform(v)); ok = cond(uu) > 1e-6
        req((np.abs(w - v)[ok] <= 1e-6 * (np.abs(v) + sc)[ok]).all(), f"inverse_transform(transform(x)) != x on {nm} data ({t.method_}, standardize={std}, lambda={l})", x=v[ok], got=w[ok])
    back(x, u, "fitted")
    v = np.exp(rng.normal(size=9)) * np.median(np.abs(x)) + 1e-3
    if t.method_ == "yeojohnson": v = v * rng.choice([-1, 1], size=9)
    uu = v
    if std: uu = v / t.scale_pre if t.method_ == "boxcox" else (v - t.location_pre) / t.scale_pre
    back(v, uu, "new")
    vs = np.sort(v); req((np.diff(t.transform(vs)) >= 0).all(), "transform not increasing")
    # clipping
    for l2 in (l, *LAM):
        t.lambda_rew = l2
        lo, hi = -np.inf, np.inf
        if t.method_ == "boxcox": lo, hi = (-1 / l2, np.inf) if l2 > 0 else ((-np.inf, -1 / l2) if l2 < 0 else (lo, hi))
        else: lo, hi = (1 / (2 - l2) if l2 > 2 else -np.inf), (-1 / l2 if l2 < 0 else np.inf)
        z = np.array([lo * 3, lo * 1.01, hi * 1.01, hi * 3, 0., .5 * (lo if np.isfinite(lo) else -1), .5 * (hi if np.isfinite(hi) else 1)]); z = z[np.isfinite(z)]
        b = t._handle_bounds(z); req((b >= lo).all() and (b <= hi).all(), f"values outside the range not clipped, {t.method_} lambda={l2}", z=z, got=b)
        inside = (z > lo) & (z < hi); req((b[inside] == z[inside]).all(), f"values inside the range changed, {t.method_} lambda={l2}", z=z, got=b)
        w = t.inverse_transform((z - t.location_post) / t.scale_post if std else z); req(abs(l2) < .05 or abs(l2 - 2) < .05 or finite(w), f"inverse of out-of-range values not finite, {t.method_} lambda={l2}", z=z, got=w)

@case("C09", quick=40)
def refused(rng, k):
    x = np.abs(rng.normal(size=12)) + .1; y = x.copy(); y[k % 12] = [0., -1., -1e-300][k % 3]
    raises(ValueError, lambda: T(method="boxcox").fit(y), "Box-Cox fit of non-positive data"); t = T(method="boxcox").fit(x); raises(ValueError, lambda: t.transform(y), "Box-Cox transform of non-positive data")
    req(T(method="auto").fit(np.where(np.arange(12) == k % 12, -3., x * np.arange(1, 13))).method_ == "yeojohnson", "auto on non-positive data must use Yeo-Johnson"); raises(ValueError, lambda: T(method="foo").fit(x), "unknown method")

from uni import *
from robpy.preprocessing import RobustScaler, RobustPowerTransformer
from robpy.preprocessing.utils import wrapping_transformation

A = [2.0, 0.25, 1024.0, 3.0, 0.7, 1e5, 1e-5, 1.0]
B = [0.0, 1.0, -8.0, 100.0, -1e3]

def ab(rng, x):
    a = A[int(rng.integers(len(A)))]; b = B[int(rng.integers(len(B)))] * a * float(np.std(x) or 1)
    return a, b

@case("C01", quick=600)
def affine(rng, k):
    name, mk = CONF[k % len(CONF)]
    x = generic(rng, nmin=6, nmax=45)
    a, b = ab(rng, x)
    e1 = mk().fit(x.copy()); e2 = mk().fit(a * x + b)
    if not e1.scale > 1e-6 * np.ptp(x): raise Skip()
    m = np.abs(a * x + b).max() / (a * e1.scale)
    eq(e2.scale, a * e1.scale, f"{name}: scale of a*x+b", rtol=1e-9 * max(10, m), a=a, b=b, x=x)
    req(abs(e2.location - (a * e1.location + b)) <= 1e-9 * max(10, m) * a * e1.scale, f"{name}: location of a*x+b", got=e2.location, exp=a * e1.location + b, a=a, b=b, x=x)

@case("C01", quick=60)
def scaler(rng, k):
    p = int(rng.integers(1, 4)); n = int(rng.integers(8, 40))
    X = np.column_stack([generic(rng, n=n) for _ in range(p)])
    name, mk = CONF[k % len(CONF)]
    a = np.array([A[int(rng.integers(len(A)))] for _ in range(p)]); b = np.array([B[int(rng.integers(len(B)))] for _ in range(p)]) * a * X.std(axis=0)
    s1 = RobustScaler(mk()).fit(X); 
    if (s1.scales_ <= 1e-6 * np.ptp(X, axis=0)).any(): raise Skip()
    Z1 = s1.transform(X); Z2 = RobustScaler(mk()).fit_transform(X * a + b)
    tol = 1e-9 * max(10, (np.abs(X * a + b).max(axis=0) / (a * s1.scales_)).max())
    eq(Z2, Z1, f"RobustScaler({name}) on X*a+b", rtol=tol, atol=tol, a=a, b=b, X=X)

@case("C01", quick=48, tmo=120)
def power(rng, k):
    method = ["yeojohnson", "boxcox"][k % 2]
    n = int(rng.integers(20, 60))
    x = [np.exp(rng.normal(size=n)), rng.gamma(2, size=n), np.abs(rng.normal(size=n)) + .5, rng.normal(size=n) ** 3][k // 2 % 4]
    if method == "boxcox": x = np.abs(x) + .05
    a = [4.0, 0.125, 1000.0, 3.0, .01][k % 5]; b = 0 if method == "boxcox" else [0., 2., -64.][k % 3]
    t1 = RobustPowerTransformer(method=method).fit(x); t2 = RobustPowerTransformer(method=method).fit(a * x + b)
    y1, y2 = t1.transform(x), t2.transform(a * x + b)
    if abs(t1.lambda_rew - t2.lambda_rew) > 1e-3: # the optimizer may settle in another local optimum only if rounding matters
        x3 = x * (1 + 1e-13)
        if abs(RobustPowerTransformer(method=method).fit(x3).lambda_rew - t1.lambda_rew) > 1e-6: raise Skip()
    eq(y2, y1, f"standardized {method} transform of a*x+b", rtol=1e-3, a=a, b=b, x=x, lambdas=(t1.lambda_rew, t2.lambda_rew))
    x = np.abs(x) + .1
    y1 = RobustPowerTransformer(method="auto").fit(x); y2 = RobustPowerTransformer(method="auto").fit(a * x)
    if y1.method_ != y2.method_ :
        raise Bad(f"method 'auto' chooses {y1.method_} for x and {y2.method_} for {a}*x\n x={fmt(x)}")

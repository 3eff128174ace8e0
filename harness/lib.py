"""Run-time contract evaluation on the real package (runs under the project's interpreter)."""
import numpy as np, pandas as pd, warnings, logging, signal

class Bad(Exception):
    """a contract is violated on the real code"""
class Skip(Exception):
    """the drawn input is outside the contract's precondition"""

CASES = {}

def case(pid, quick=40, thorough=None, tmo=60):
    def deco(f):
        CASES.setdefault(pid, []).append((f.__name__, f, quick, thorough or 8 * quick, tmo))
        return f
    return deco

def fmt(v, n=60):
    with np.printoptions(precision=17, threshold=n, linewidth=140):
        return repr(v)

def req(cond, msg, /, **data):
    if not bool(cond):
        raise Bad(msg + "".join(f"\n    {k} = {fmt(v)}" for k, v in data.items()))

def finite(x):
    return bool(np.all(np.isfinite(np.asarray(x, dtype=float))))

def close(a, b, rtol=1e-7, atol=0.0):
    """a and b agree up to rounding, relative to the largest magnitude involved; NaNs must coincide"""
    a = np.asarray(a, dtype=float); b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        if a.size != b.size: return False
        a = a.reshape(-1); b = b.reshape(-1)
    na, nb = np.isnan(a), np.isnan(b)
    if not np.array_equal(na, nb): return False
    a, b = a[~na], b[~na]
    if a.size == 0: return True
    inf = np.isinf(a) | np.isinf(b)
    if inf.any():
        if not np.array_equal(a[inf], b[inf]): return False
        a, b = a[~inf], b[~inf]
        if a.size == 0: return True
    m = max(np.abs(a).max(), np.abs(b).max())
    return bool(np.all(np.abs(a - b) <= atol + rtol * m))

def eq(a, b, msg, /, rtol=1e-7, atol=0.0, **data):
    if not close(a, b, rtol, atol):
        raise Bad(msg + f"\n    got      {fmt(np.asarray(a))}\n    expected {fmt(np.asarray(b))}" +
                  "".join(f"\n    {k} = {fmt(v)}" for k, v in data.items()))

def raises(exc, f, msg):
    try:
        f()
    except exc:
        return
    except Exception as e:
        raise Bad(f"{msg}: raised {type(e).__name__}({e}) instead of {exc}")
    raise Bad(f"{msg}: no error raised")

# ---------------------------------------------------------------- input generators
def sample(rng, k=0, n=None, kind=None, nmin=2, nmax=60):
    """univariate sample with many shapes; returns float array"""
    n = n or int(rng.integers(nmin, nmax + 1))
    kinds = ["normal", "heavy", "int", "half", "skew", "bimodal", "outl", "fewvals", "sorted"]
    kind = kind or kinds[int(rng.integers(len(kinds)))]
    x = rng.normal(size=n)
    if kind == "heavy": x = rng.standard_t(1.5, size=n)
    elif kind == "int": x = rng.integers(-5, 6, size=n).astype(float)
    elif kind == "half":
        x[: n // 2 + int(rng.integers(0, 2))] = 1.25
        x = rng.permutation(x)
    elif kind == "skew": x = np.exp(rng.normal(size=n))
    elif kind == "bimodal": x = np.where(rng.random(n) < .5, x, 8 + x)
    elif kind == "outl": x[: max(1, n // 5)] += rng.choice([-1, 1]) * 50; x = rng.permutation(x)
    elif kind == "fewvals": x = rng.choice([0.1, 0.3, -2.7], size=n)
    elif kind == "sorted": x = np.sort(x)[:: int(rng.choice([-1, 1]))]
    if kind in ("normal", "heavy", "skew", "bimodal", "outl"):
        x = x * 10.0 ** rng.integers(-3, 4) + rng.choice([0, 0, 5.0, -300.0])
    return x

def generic(rng, n=None, nmin=5, nmax=60):
    """continuous sample (no ties, positive spread)"""
    return sample(rng, n=n, kind=str(rng.choice(["normal", "heavy", "skew", "bimodal", "outl", "sorted"])), nmin=nmin, nmax=nmax)

def matrix(rng, n=None, p=None, nmin=12, nmax=60, pmin=2, pmax=5, outl=None, scale=False):
    n = n or int(rng.integers(nmin, nmax + 1)); p = p or int(rng.integers(pmin, pmax + 1))
    A = rng.normal(size=(p, p)) + np.eye(p)
    X = rng.normal(size=(n, p)) @ A
    outl = rng.choice(["none", "row", "cell", "heavy"]) if outl is None else outl
    if outl == "row": X[: n // 6] += 15 * rng.normal(size=p)
    elif outl == "cell":
        m = rng.random((n, p)) < .05; X[m] += 12
    elif outl == "heavy": X = X * np.sqrt(3 / rng.chisquare(3, size=(n, 1)))
    X = X[rng.permutation(n)]
    if scale: X = X * 10.0 ** rng.integers(-2, 3, size=p) + rng.normal(size=p) * 10
    return X

def quiet():
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    np.seterr(all="ignore")

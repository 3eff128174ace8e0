from multi import *
import reg
from uni import CONF
from robpy.regression import FastLTSRegression, MMRegression, SRegression
from robpy.utils.outlyingness import stahel_donoho
from robpy.preprocessing import RobustPowerTransformer, RobustScaler

def again(nm, run, rng, msg="gives other results under another random state"):
    np.random.seed(int(rng.integers(10 ** 6))); import random; random.seed(int(rng.integers(10 ** 6))); r = run()
    for t in range(2):
        np.random.seed(int(rng.integers(10 ** 6))); np.random.normal(size=int(rng.integers(1, 50))); random.seed(t); same(run(), r, f"{nm} {msg}", rtol=0)

@case("C24", quick=60, tmo=60)
def mcd(rng, k):
    X = matrix(rng, nmin=25, nmax=60, pmax=4); s = [0, 1, 42, int(rng.integers(10 ** 6))][k % 4]; kw = [{}, dict(alpha=.75), dict(n_partitions=2), dict(alpha=.6, reweighting=False)][k // 4 % 4]
    again(f"FastMCD(random_seed={s},{kw})", lambda: cres(FastMCD(random_seed=s, n_initial_subsets=15, n_best_subsets=2, **kw).fit(X)), rng); e = FastMCD(random_seed=s, n_initial_subsets=15, n_best_subsets=2, **kw); r = cres(e.fit(X)); e.fit(X[::-1][:len(X) - 2]); same(cres(e.fit(X)), r, f"FastMCD(random_seed={s},{kw}) gives other results when it ran before", rtol=0)

@case("C24", quick=60, tmo=60)
def regression(rng, k):
    X, y = reg.data(rng); s = [0, 1, 42, int(rng.integers(10 ** 6))][k % 4]
    M = [("FastLTS", lambda: FastLTSRegression(n_initial_subsets=8, n_initial_c_steps=1, n_best_models=2, random_state=s)), ("S", lambda: SRegression(n_initial_subsets=8, n_best_subsets=2, random_state=s)), ("MM", lambda: MMRegression(initial_estimator=SRegression(n_initial_subsets=8, n_best_subsets=2, random_state=s))), ("MM(LTS)", lambda: MMRegression(initial_estimator=FastLTSRegression(n_initial_subsets=8, random_state=s)))]
    nm, mk = M[k // 4 % 4]; kw = {} if nm.startswith("MM") else dict(verbosity=50)
    def run(e=None): e = (e or mk()); e.fit(X, y, **kw); return dict(p=np.asarray(e.predict(X)).ravel(), s=np.array(float(e.scale)))
    again(f"{nm}(seed {s})", run, rng); e = mk(); r = run(e); same(run(e), r, f"{nm}(seed {s}) gives other results when it ran before", rtol=0)
    if nm == "S": # a reused initial estimator
        ini = mk(); r1 = MMRegression(initial_estimator=ini).fit(X, y).predict(X); r2 = MMRegression(initial_estimator=ini).fit(X, y).predict(X); eq(r2, r1, "MM with a reused initial estimator", rtol=0)

@case("C24", quick=40, tmo=60)
def pca(rng, k):
    X = pdata(rng); s = [0, 7, int(rng.integers(10 ** 6))][k % 3]; kw = [{}, dict(n_components=2), dict(alpha=.6)][k // 3 % 3]
    again(f"ROBPCA(random_seed={s},{kw})", lambda: pres(ROBPCA(random_seed=s, **kw).fit(X), X), rng)

@case("C24", quick=120)
def outlyingness(rng, k):
    X = matrix(rng, nmin=10, nmax=30); s = [0, 7, int(rng.integers(10 ** 6))][k % 3]; q = 2 if k % 2 else X.shape[1]
    again(f"stahel_donoho(seed {s})", lambda: dict(o=stahel_donoho(X, n_points=q, n_dir=20, random_seed=s)), rng)

@case("C24", quick=40)
def directions(rng, k):
    """a seeded call examines many directions: an outlier that only shows along one of them is found"""
    X = np.column_stack([rng.uniform(-1, 1, size=60), 50 * rng.uniform(-1, 1, size=60)]); X[0] = [60., 0.]; s = int(rng.integers(10 ** 6)); o = stahel_donoho(X, n_dir=250, random_seed=s); req(np.argmax(o) == 0, "a seeded outlyingness misses a far outlier", seed=s, o=o)

@case("C24", quick=70, tmo=60)
def unseeded(rng, k):
    D = [c for c in COV if not c[0].startswith("FastMCD")]
    if k % 2: nm, mk = D[k // 2 % len(D)]; X = cdata(rng, nm); fitc(mk, X); again(nm, lambda: cres(mk().fit(X)), rng, "is not deterministic")
    elif k % 4 == 0: nm, mk = CONF[k // 4 % len(CONF)]; x = generic(rng); again(nm, lambda: dict(l=np.array(mk().fit(x).location), s=np.array(mk().fit(x).scale)), rng, "is not deterministic")
    elif k % 8 == 2: X = ddata(rng); again("DDC", lambda: dres(DDC().fit(X)), rng, "is not deterministic"); P = pdata(rng); again("PCALocantore", lambda: pres(PCALocantore().fit(P), P), rng, "is not deterministic")
    else: x = rng.normal(size=25) ** 3; again("RobustPowerTransformer", lambda: dict(t=RobustPowerTransformer().fit(x).transform(x)), rng, "is not deterministic")

"""C29: the L1-median's iteration: start at the mean, steps of Vardi and Zhang, both exits"""
from tform import *
npm = lambda d, nm: d.handlers["numpy." + nm]
def run(E):
    EPS = Fr(1, 10 ** 7)
    def point(d, p):
        """the name of the point carried through the iteration, and where it starts"""
        c = [(q[0], v) for k, ps, _ in d.entries.values() for q, v in ps.items() if isinstance(v, A) and len(q) == 1 and len(v.shape_) == 1 and v.shape_[0] is P_(p)]
        if len(c) != 1: raise Unsupported("no single point carried through the iteration")
        return c[0]
    def parts(d, X, mu):
        """observations at mu, pull of the others, weighted mean of the others, its weights"""
        c = X - mu; dist = npm(d, "sqrt")(npm(d, "sum")(c * c, axis=1)); w = A(dist.shape_, mul(gt0(dist.body), inv(dist.body))); at = npm(d, "sum")(dist == 0)
        return at, npm(d, "linalg.norm")(npm(d, "sum")(c * w[:, None], axis=0)), npm(d, "sum")(X * w[:, None], axis=0) / npm(d, "sum")(w), w
    def step(d, X, mu):
        at, pull, T, w = parts(d, X, mu); some = bool(at != 0); t = at / (pull if some else d.inf)          # a share of no observations is zero
        return some, at, pull, T + t * (mu - T), w
    def lm(d, m, W):
        n, p = d.int("n", 1), d.int("p", 1); X = d.array("x", n, p); X0 = A(X.shape_, X.body); d.c = X0, p; d.inf = m.np.inf; r = m.l1median(X); d.prove_same("the data given are left as they were", X, X0)
        if not d.heads: raise Unsupported("no iteration")
        nm, ent = point(d, p); mu = d.heads[-1][nm]
        soft(d, "the iteration starts at the mean", ent, npm(d, "mean")(X0, axis=0)); some, at, pull, T, w = step(d, X0, mu)
        if d.same(r, mu)[0]:
            if not some: raise PathEnd         # no observations weigh less than an infinite pull
            le(d, "an iterate is reported only if the observations equal to it outweigh the pull of the others (the optimality condition)", pull, at); return
        d.prove_same("the point reported: one reweighting step from the last iterate", r, T); cond(d, "the point reported: that step moves by less than 1e-7", gt0(const(EPS) - P_(npm(d, "sum")(npm(d, "abs")(mu - r)))))
        share(d, some, at, pull, w)
    def share(d, some, at, pull, w):
        d.record("a step is a convex combination: weights nonnegative", "proved" if nonneg(w.body) else "failed")
        if some: cond(d, "a step is a convex combination: the share of the iterate is below one", gt0(P_(pull) - P_(at)))
    def h(tl, hv, loc):
        d = tl.d; X, p = d.c; nm, _ = point(d, p); mu, nxt = hv[nm], loc[nm]; some, at, pull, T, w = step(d, X, mu)
        d.prove_same("next iterate: one reweighting step", nxt, T); share(d, some, at, pull, w)
    unit(E, "l1median", "robpy.utils.median", lm, hooks=[h], need=["next iterate", "the point reported", "an iterate is reported only"])
    E.assume("a step of Vardi and Zhang never raises the sum of distances (published theorem): with the start at the mean, the result is at least as central as the mean", "a convex combination of points of the coordinatewise range lies in it")

"""single functions against their postconditions (domain T, one run): results equal the stated formula in normal form; order facts
between numbers are given to z3 with the conditions of the path"""
from trun import *
from tdom import *
import tdom, core, z3, types, time
from core import World

def to_z3(p, memo):
    """polynomial as a real term; atoms are unknown reals, indicators the truth of their argument"""
    t = z3.RealVal(0)
    for m, c in p.t:
        x = z3.RealVal(str(c))
        for i, e in m:
            if e.denominator == 1 and e > 0:
                for _ in range(int(e)): x = x * atom_z3(i, memo)
            else:
                k = ("pow", i, e)
                if k not in memo: memo[k] = z3.Real(f"p{len(memo)}")
                x = x * memo[k]
        t = t + x
    return t
def atom_z3(i, memo):
    if i in memo: return memo[i]
    a = tdom._tab[i]
    if a.kind == "ind": memo[i] = z3.If(to_z3(a.args[0], memo) > 0, z3.RealVal(1), z3.RealVal(0))
    elif a.kind == "eq0": memo[i] = z3.If(to_z3(a.args[0], memo) == 0, z3.RealVal(1), z3.RealVal(0))
    elif a.kind == "pos": q = to_z3(a.args[0], memo); memo[i] = z3.If(q > 0, q, z3.RealVal(0))
    elif a.kind == "abs": q = to_z3(a.args[0], memo); memo[i] = z3.If(q > 0, q, -q)
    elif a.kind in IDEM: v = z3.Real(f"a{i}"); memo[i] = v; memo.setdefault("side", []).append(z3.Or(v == 0, v == 1))
    else:
        v = z3.Real(f"a{i}"); memo[i] = v
        if atom_pos(a): memo.setdefault("side", []).append(v > 0)
        elif atom_nonneg(a): memo.setdefault("side", []).append(v >= 0)
        if i in LOW: memo.setdefault("side", []).append(v >= LOW[i])
    return memo[i]
def cond(d, name, goal, given=()):
    """goal (a 0/1 polynomial or a list of them, one of which must hold) follows from the path"""
    goals = [P_(g) for g in (goal if isinstance(goal, (list, tuple)) else [goal])]; t0 = time.time()
    if any(isconst(g) and cval(g) == 1 for g in goals): d.queries += 1; d.record(name, "proved"); return True
    memo = {}; s = z3.Solver(); s.set("timeout", 20000)
    for k, v in list(d.known.items()) + [(q, v) for q, v in d.forced.items()]: s.add(to_z3(k, memo) != 0 if v else to_z3(k, memo) == 0)
    for g in given: s.add(to_z3(P_(g), memo) != 0)
    for g in goals: s.add(to_z3(g, memo) == 0)
    s.add(*memo.get("side", [])); d.queries += 1; r = s.check()
    d.record(name, "proved" if r == z3.unsat else "failed" if r == z3.sat else "unsupported", "" if r == z3.unsat else f"{r}; {s.model() if r == z3.sat else ''}\ngoal {[show(g)[:300] for g in goals]}\npath: {[(show(k)[:160], v) for k, v in d.trail]}", backend="z3")
    return r == z3.unsat
def le(d, name, a, b): return cond(d, name, ge0(P_(b) - P_(a)))

def soft(d, name, a, b):
    """a fact the argument uses but the property does not state: undecided, not violated, when it is different"""
    ok, why = d.same(a, b); d.record(name, "proved" if ok else "unsupported", why)

def single(d, f, raises=()):
    """one path of one run"""
    d.run = 1; d.loopn = {1: 0, 2: 0}; d.lc = {1: 0, 2: 0}; d.entries = {}; d.backs = {}; d.stopped = None; d.rngc = 0; d.heads = []
    try: return f()
    except Stop: raise PathEnd
    except (Unsupported, PathEnd, Restart): raise
    except Exception as e:
        if not isinstance(e, CODE_ERRORS): raise
        if raises and type(e).__name__ in raises: raise PathEnd
        import traceback
        raise Unsupported(f"{type(e).__name__} in the symbolic run: {e}\n" + "".join(traceback.format_tb(e.__traceback__)[-2:]))
def unit(E, what, mod, f, cut=0, pre=None, need=(), hooks=(), invs=(), limit=3000, keep=False, nolearn=()):
    """f(d, module, World) states the obligations of one function; `need`: obligations that must come up"""
    d = TDomain(); d.engine = E; d.cutsize = cut; d.keeplists = keep; d.nolearn = nolearn; d.listchanged = set(); d.hooks = list(hooks); d.invs = [f(d) for f in invs]
    if E.only and not any(x in what for x in E.only): return
    with d:
        pre and pre(d); n0 = len(E.obls)
        try: W = World(d); m = W.module(mod)
        except Exception as e:
            if E.claim(): E.unsupported(what, f"{type(e).__name__}: {e}")
            return
        E.unit(d, what, lambda: single(d, lambda: f(d, m, W)), limit)
        if E.obls[n0:]:
            have = " / ".join(o["name"] for o in E.obls[n0:])
            for x in need:
                if x not in have: E.unsupported(what, f"the obligation '{x}' did not come up: the code no longer has the shape the contract is attached to")

def sel(c):
    """np.where(mask)[0] as a selection of the axis: the positions k with mask[k], in increasing order; of a mask over a selection: positions within it"""
    c = arr(c); f = c.filt[0]
    if len(c.shape_) != 1: raise Unsupported("np.where on several dimensions")
    m = dnorm(ixeq(mul(c.body, f))); n = c.shape_[0]; rel = None if f is ONE else f
    if not isconst(m) and len(m.t) == 1:
        for i, e in m.t[0][0]:
            a = tdom._tab[i]
            if a.kind != "delta": continue
            for x, y in (a.args, a.args[::-1]):
                if x is KV[0] and not (y.fv & {Kn(0)}) and subst(m, {Kn(0): y}) is ONE: r = A((ONE,), y, "i"); r.rel = rel; return r
    r = A((n,), KV[0], "i", (m,)); r.rel = rel; return r
def ixeq(p):
    """[i - j = 0] of two index symbols is delta(i, j)"""
    out = []
    for m, c in p.t:
        q = const(c)
        for i, e in m:
            a = tdom._tab[i]; r = None
            if a.kind == "eq0" and len(a.args[0].t) == 2:
                (m1, c1), (m2, c2) = a.args[0].t
                if c1 == -c2 and abs(c1) == 1 and all(isvar(poly({z: Fr(1)})) is not None for z in (m1, m2)): r = delta(poly({m1: Fr(1)}), poly({m2: Fr(1)}))
            q = mul(q, poly({((i, e),): Fr(1)}) if r is None else r)
        out.append(q)
    return addn(out)
def selections(d):
    w0, sd0 = d.handlers["numpy.where"], d.handlers["numpy.setdiff1d"]
    d.handlers["numpy.nonzero"] = lambda c: (sel(asbool(c)),); d.handlers["numpy.flatnonzero"] = lambda c: sel(asbool(c))
    def asbool(c):
        c = arr(c)
        return c if c.dt == "b" else A(c.shape_, c.body, "b", c.filt) if mul(c.body, c.body) is c.body else c != 0        # b*b = b: zero or one
    def where1(c, a=None, b=None): return (sel(asbool(c)),) if a is None else w0(c, a, b)
    d.handlers["numpy.where"] = where1
    def setdiff1d(a, b, **k):
        a, b = arr(a), arr(b)
        if a.body is KV[0] and b.body is KV[0] and a.shape_[0] is b.shape_[0] and a.filt[0] is ONE: return sel(A(a.shape_, notp(b.filt[0]), "b"))
        return sd0(a, b)
    d.handlers["numpy.setdiff1d"] = setdiff1d

"""the explorer, the prover and the library contracts of domain S"""
import z3, time, builtins, itertools, fractions
from sdom import *
import sdom, core

Z = z3.Int("z!")
P = [z3.Int(f"p{i}!") for i in range(8)]

class LoopSpec:
    def __init__(self, inv=None, havoc=None, objs=None): self.inv = inv; self.havoc = havoc; self.objs = objs

class Obligation(Exception): pass

class SDomain:
    def __init__(self, qtime=8000):
        self.values = {}; self.handlers = {}
        self.loops = {}; self.results = {}; self.order = []
        self.fn = "-"; self.queries = 0; self.canaries = 0; self.sec = 0.0
        self.qtime = qtime; self.stack = None; self.dec = []; self.pos = 0
        self.pc = []; self.base = []; self.uid = 0; self.registry = {}; self.keymap = {}
        self.fact_gens = {}; self.pair_facts = {}; self.index_terms = []; self.used = set(); self.assumed = set()
        self.wd = None       # when a list: well-definedness obligations are recorded there
        self.keep = []
        from scontracts import install
        install(self)
    def __enter__(self):
        self.old = (sdom._D[0], core.CURRENT[0]); sdom._D[0] = self; core.CURRENT[0] = self; return self
    def __exit__(self, *a): sdom._D[0], core.CURRENT[0] = self.old
    def unknown_call(self, path, a, k): raise Unsupported(f"no contract for {path}")
    # ------------------------------------------------------------ symbols
    def fresh(self, name, sort=R):
        self.uid += 1; return z3.Const(f"{name}!{self.uid}", sort)
    def real(self, name): return Num(z3.Real(name))
    def int(self, name): return Num(z3.Int(name))
    def bool(self, name): return Num(z3.Bool(name))
    def array(self, name, *shape, sort=R, ok=False):
        """input array: elements name(i, ...); with ok=True elements may be NaN, ok_name(i, ...) tells which are not"""
        sh = [x.e if isinstance(x, Num) else z3.IntVal(x) for x in shape]
        f = z3.Function(name, *([I] * len(sh)), sort)
        okb = T if not ok else z3.Function("ok_" + name, *([I] * len(sh)), B)(*K[:len(sh)])
        return Arr(sh, f(*K[:len(sh)]), okb)
    naming = False; naming_min = 30
    def name(self, a):
        """a.body becomes the application of a new function defined to be equal to it (keeps later normal forms small)"""
        if not self.naming or not isinstance(a, Arr) or not a.ndim or a.body.sort() != R or dagsize(a.body) < (6 if a.ndim > 1 else self.naming_min): return a
        m, ps, _ = None, None, None
        body, _, ps = self.canon(a.body, [], 0)
        key = ("def", body.get_id()); self.keep.append(body)
        if key not in self.keymap:
            f = z3.Function(f"def#{len(self.keymap)}", *([I] * len(ps)), R) if ps else None
            if f is None: return a
            self.keymap[key] = f
            self.fact_gens[f.name()] = lambda app, ts, body=body: [app == subst(body, list(zip(P, app.children())))]
        f = self.keymap[key]
        return Arr(a.shape_, f(*ps), a.ok, a.filt)
    def num(self, v):
        if isinstance(v, Num): return v
        if isinstance(v, Arr) and v.ndim == 0: return Num(v.body, v.ok)
        if v is None: raise Unsupported("None used as a number")
        if is_num(v) or isinstance(v, bool):
            l = lit(v)
            if l is None: return Num(RV(0), F)
            return Num(l)
        if isinstance(v, z3.ExprRef): return Num(v)
        raise Unsupported(f"not a number: {core.short(v)}")
    def arr(self, v):
        if isinstance(v, Arr): return v
        if isinstance(v, (Num, int, float, bool)) or is_num(v):
            n = self.num(v); return Arr((), n.e, n.ok)
        if isinstance(v, SymList): return self.stacklist(v)
        if isinstance(v, (list, tuple)): return self.stack_concrete([self.arr(x) for x in v])
        if type(v).__module__ == "numpy": return self.arr(v.tolist())
        raise Unsupported(f"not an array: {core.short(v)}")
    def stack_concrete(self, xs):
        if not xs: return Arr((z3.IntVal(0),), RV(0))
        sh = xs[0].shape_; r = len(sh); body = ok = None
        for i in range(len(xs) - 1, -1, -1):
            x = xs[i]; ps = [(K[d], K[d + 1]) for d in range(r)]
            b, o = subst(x.body, ps), subst(x.ok, ps)
            body = b if body is None else Ite(K[0] == i, b, body); ok = o if ok is None else Ite(K[0] == i, o, ok)
        return Arr((z3.IntVal(len(xs)),) + tuple(sh), body, ok)
    def stacklist(self, l):
        v = self.guarded(z3.And(K[5] >= 0, K[5] < l.n), lambda: l.fn(K[5]))
        x = self.arr(v); r = len(x.shape_); ps = [(K[d], K[d + 1]) for d in range(r)]
        return Arr((l.n,) + x.shape_, subst(subst(x.body, ps), [(K[5], K[0])]), subst(subst(x.ok, ps), [(K[5], K[0])]))
    # ------------------------------------------------------------ paths
    def explore(self, fn, f, limit=4000):
        """run f on every path; obligations proved inside are named per function `fn`"""
        self.fn = fn; stack = [[]]; n = 0
        while stack:
            self.dec = stack.pop(); self.pos = 0; self.pending = stack; self.pc = list(self.base); self.nested = 0
            n += 1
            if n > limit: raise Unsupported(f"more than {limit} paths")
            try: f()
            except PathEnd: pass
        return n
    def assume(self, c):
        c = c.e if isinstance(c, Num) else c
        self.pc.append(c)
    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.pos < len(self.dec):
            d = self.dec[self.pos]; self.pos += 1
            self.pc.append(c if d[0] else Not(c)); return d[0]
        t = self.feasible(c); f = self.feasible(Not(c)) if t else True
        v = t
        self.dec = self.dec[:self.pos] + [(v, t and f)]; self.pos += 1
        if t and f: self.pending.append(self.dec[:-1] + [(False, False)])
        self.pc.append(c if v else Not(c)); return v
    def guarded(self, cond, f):
        """evaluate f for a generic index under `cond`, merging its paths into one value"""
        outer = (self.dec, self.pos, self.pending, self.pc)
        res = []; stack = [[]]
        while stack:
            self.dec = stack.pop(); self.pos = 0; self.pending = stack; self.pc = list(outer[3]) + [cond]; n0 = len(self.pc)
            try: v = f()
            finally: pcs = self.pc[n0:]; dec, pos, pend, pc = self.dec, self.pos, self.pending, self.pc; self.dec, self.pos, self.pending, self.pc = outer
            self.pending = outer[2]
            res.append((And(*pcs), v)); stack = pend
            if len(res) > 200: raise Unsupported("too many paths in an element function")
            self.dec, self.pos, self.pending, self.pc = outer
        if len(res) == 1: return res[0][1]
        if any(isinstance(v, (list, tuple)) for _, v in res):
            m = len(res[0][1]); return type(res[0][1])(self.merge([(c, v[j]) for c, v in res]) for j in range(m))
        return self.merge(res)
    def merge(self, res):
        xs = [(c, self.arr(v)) for c, v in res]; sh = xs[0][1].shape_
        if any(len(x.shape_) != len(sh) for _, x in xs): raise Unsupported("paths with results of different shapes")
        body, ok = xs[-1][1].body, xs[-1][1].ok
        for c, x in xs[-2::-1]: body = Ite(c, x.body, body); ok = Ite(c, x.ok, ok)
        return Num(body, ok) if not sh else Arr(sh, body, ok)
    def feasible(self, c):
        r, _ = self.check(self.pc + [c], 1500, rounds=1); return r != z3.unsat
    # ------------------------------------------------------------ prover
    def closure(self, fs, rounds=3):
        seen = {}; out = list(fs); todo = list(fs); terms = {}
        for t in self.index_terms: terms[t.get_id()] = t
        self.done = set(); apps_by = {}
        for _ in range(rounds):
            new = []; stack = list(todo); fresh_apps = []
            while stack:
                e = stack.pop()
                if e.get_id() in seen: continue
                seen[e.get_id()] = e
                if z3.is_quantifier(e): continue
                stack.extend(e.children())
                if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0: fresh_apps.append(e)
            for a in fresh_apps:
                nm = a.decl().name(); new += axioms_for(a)
                if nm == "ind": new.append(a == z3.If(a.children()[0], RV(1), RV(0)))
                elif nm == "den": new.append(a == a.children()[0])
                elif nm == "inv": new.append(z3.Implies(a.children()[0] != 0, a * a.children()[0] == 1))
                for c in a.children():
                    if c.sort() == I and not has(c, Z) and not any(has(c, q) for q in P): terms[c.get_id()] = c
                for b in apps_by.get(nm, []):
                    new += pair_axioms(a, b)
                    if nm in self.pair_facts: new += self.pair_facts[nm](a, b)
                apps_by.setdefault(nm, []).append(a)
            for nm, aps in list(apps_by.items()):
                g = self.fact_gens.get(nm)
                if not g: continue
                for a in aps:
                    for fct in g(a, list(terms.values())):
                        if fct.get_id() not in self.done: self.done.add(fct.get_id()); self.keep.append(fct); new.append(fct)
            fs_ = [a for nm, aps in apps_by.items() if nm in self.registry for a in aps] + [a for k, a in self.zero_apps(seen)]
            for fct in self.order_pairs(fs_):
                if fct.get_id() not in self.done: self.done.add(fct.get_id()); self.keep.append(fct); new.append(fct)
            for k, a in self.zero_apps(seen):
                g = self.fact_gens.get(k)
                if g:
                    for fct in g(a, list(terms.values())):
                        if fct.get_id() not in self.done: self.done.add(fct.get_id()); self.keep.append(fct); new.append(fct)
            if not new: break
            out += new; todo = new
        return out
    def zero_apps(self, seen):
        return [(e.decl().name(), e) for e in seen.values() if z3.is_const(e) and e.decl().name() in self.registry]
    def check(self, fs, timeout=None, rounds=3):
        fs = self.closure([f for f in fs if not z3.is_true(f)], rounds)
        t0 = time.time(); self.queries += 1
        s = z3.Solver(); s.set("timeout", timeout or self.qtime); s.add(*fs)
        r = s.check(); m = None
        if r == z3.unknown:
            r2 = self.nl(fs, timeout or self.qtime)
            if r2 != z3.unknown: r = r2
        if r == z3.sat and s.reason_unknown() == "": 
            try: m = s.model()
            except z3.Z3Exception: m = None
        self.sec += time.time() - t0
        return r, m
    def nl(self, fs, timeout):
        """the same query with every uninterpreted application named by a real constant (implied by it), for the nonlinear procedure"""
        names = {}; cache = {}
        def go(e):
            k = e.get_id()
            if k in cache: return cache[k]
            ch = [go(c) for c in e.children()]
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0:
                key = (e.decl().name(),) + tuple(c.get_id() for c in ch); self.keep.extend(ch)
                if key not in names: names[key] = z3.Const(f"u!{len(names)}", e.sort())
                r = names[key]
            elif z3.is_app(e) and e.num_args(): r = e.decl()(*ch) if e.decl().kind() not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_DISTINCT) else {z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or, z3.Z3_OP_DISTINCT: z3.Distinct}.get(e.decl().kind(), lambda *x: (z3.Sum(*x) if e.decl().kind() == z3.Z3_OP_ADD else z3.Product(*x)))(*ch)
            else: r = e
            cache[k] = r; self.keep.append(e); return r
        gs = [go(f) for f in fs]
        for tac in ("qfnra-nlsat", "qfnra"):
            try:
                s = z3.Then("simplify", "purify-arith", "solve-eqs", "elim-term-ite", tac).solver() if tac == "qfnra-nlsat" else z3.Tactic("qfnra").solver()
                s.set("timeout", timeout); s.add(*gs); r = s.check()
                if r == z3.unsat: return r
            except z3.Z3Exception: pass
        return z3.unknown
    def entails(self, g, timeout=None, extra=()):
        if z3.is_true(g): return "proved"
        r, m = self.check(self.pc + list(extra) + [Not(g)], timeout)
        self.last = m
        return "proved" if r == z3.unsat else "failed" if r == z3.sat else "unknown"
    def eq_norm(self, a, b):
        try:
            if a.sort() == B or b.sort() == B: return False
            return not p_num(p_add(poly(real(a)), poly(real(b)), -1))
        except Unsupported: return False
    def record(self, name, status, backend, sec, detail=""):
        key = (self.fn, name)
        if key not in self.results:
            self.results[key] = dict(name=name, function=self.fn, status="proved", backend=backend, sec=0.0, detail="", paths=0); self.order.append(key)
        o = self.results[key]; o["paths"] += 1; o["sec"] = round(o["sec"] + sec, 4)
        if status != "proved" and o["status"] == "proved": o["status"] = status; o["detail"] = detail; o["backend"] = backend
        elif backend != "normal form" and o["status"] == "proved": o["backend"] = backend
        return status == "proved"
    def prove(self, name, goal, by=None, timeout=None, extra=()):
        """an obligation: the path condition entails the goal"""
        t0 = time.time(); g = goal.e if isinstance(goal, Num) else (z3.BoolVal(goal) if isinstance(goal, builtins.bool) else goal)
        g0 = g; g = z3.simplify(g)
        if z3.is_true(g): return self.record(name, "proved", "simplifier", time.time() - t0)
        if z3.is_eq(g0) and self.eq_norm(*g0.children()): return self.record(name, "proved", "normal form", time.time() - t0)
        if z3.is_eq(g0) and g0.children()[0].sort() != B:
            g1 = self.under(g0)
            if not g1.eq(g0) and (z3.is_true(z3.simplify(g1)) or self.eq_norm(*g1.children())): return self.record(name, "proved", "normal form", time.time() - t0)
            g2 = self.powsimp(g1)
            if not g2.eq(g1) and (z3.is_true(z3.simplify(g2)) or self.eq_norm(*g2.children())): return self.record(name, "proved", "normal form", time.time() - t0)
        st = "unknown"; extra = list(extra)
        for q in self.sqrts(g0):
            c = q.children()[0]
            if self.has_sum(c) and self.by_sum(c >= 0) == "proved": extra.append(c >= 0)
        if by == "sum" or by is None and self.has_sum(g0):
            st = self.by_sum(g0)
        if st != "proved":
            st = self.entails(g0, timeout, extra); back = "z3"
            if st == "unknown": st = self.entails(g0, 4 * (timeout or self.qtime), extra)
        else: back = "z3 (termwise)"
        det = "" if st == "proved" else f"not entailed: {str(g0)[:600]}\npath: {[str(c)[:160] for c in self.pc[len(self.base):]][:12]}\nmodel: {str(self.last)[:600] if self.last is not None else '-'}"
        return self.record(name, "proved" if st == "proved" else "failed", back, time.time() - t0, det)
    def under(self, e, extra=()):
        """the term with the if-conditions decided by the path condition resolved"""
        if e.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = e.children()
            if not any(has(c, v) for v in [Z] + K + P):
                r1 = self.check(self.pc + list(extra) + [Not(c)], 1000, 2)[0]
                if r1 == z3.unsat: return self.under(a, extra)
                if self.check(self.pc + list(extra) + [c], 1000, 2)[0] == z3.unsat: return self.under(b, extra)
        ch = e.children()
        if not ch: return e
        new = [self.under(c, extra) for c in ch]
        if all(x.eq(y) for x, y in zip(ch, new)): return e
        return e.decl()(*new) if e.decl().kind() not in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_AND, z3.Z3_OP_OR) else z3.substitute(e, *[(x, y) for x, y in zip(ch, new) if not x.eq(y)])
    def powsimp(self, e):
        """exp(log a), log(exp a), (a^b)^c and a^1, where the path condition gives a > 0"""
        if not any(n in str(e.sexpr()) for n in ("pow", "exp", "log")): return e
        cache = {}
        pos = lambda a: self.entails(a > 0, 3000) == "proved"
        def atomof(a, names):
            """the POW/EXP/LOG atom a is equal to, if any"""
            p = poly(a)
            for k in {k for m in p for k, q in m if q == 1}:
                t = ATOMS[k]
                if t.decl().name() in names and not p_num(p_add(p, p_atom(t), -1)):
                    if self.entails(a == t, 3000) == "proved": return t
            return None
        def go(e):
            if e.get_id() in cache: return cache[e.get_id()]
            ch = [go(c) for c in e.children()]; nm = e.decl().name(); r = None
            if nm == "exp" and e.num_args() == 1:
                t = atomof(ch[0], ("log",))
                if t is not None and pos(t.children()[0]): r = t.children()[0]
                else: r = EXP(p_term(poly(ch[0])))
            elif nm == "log" and e.num_args() == 1:
                t = atomof(ch[0], ("exp",))
                r = t.children()[0] if t is not None else LOG(p_term(poly(ch[0])))
            elif nm == "pow" and e.num_args() == 2:
                a, b = ch; t = atomof(a, ("pow",))
                if t is not None and pos(t.children()[0]): a, b = t.children()[0], b * t.children()[1]
                r = a if self.entails(b == 1, 3000) == "proved" else POW(p_term(poly(a)), p_term(poly(b)))
            elif e.num_args(): r = z3.substitute(e, *[(x, y) for x, y in zip(e.children(), ch) if not x.eq(y)]) if any(not x.eq(y) for x, y in zip(e.children(), ch)) else e
            else: r = e
            self.keep += [e, r]; cache[e.get_id()] = r; return r
        return go(e)
    def pcterms(self, name):
        """the values given to the loop variable `name` on this path"""
        out = []
        for c in self.pc:
            st = [c]
            while st:
                x = st.pop(); st += x.children()
                if z3.is_const(x) and x.decl().name().startswith(name + "!") and not any(x.eq(y) for y in out): out.append(x)
        return out
    def canary(self, name="assumptions are satisfiable"):
        """vacuity guard: False must not follow from the current assumptions"""
        r, _ = self.check(list(self.pc), 3000); self.canaries += 1
        return r != z3.unsat
    # ------------------------------------------------------------ sums and other functionals
    def canon(self, body, conds, axis):
        """abstract the index terms: returns (canonical body, canonical cond, parameter terms)"""
        ps = []
        def scan(e, out, seen):
            if e.get_id() in seen: return
            seen.add(e.get_id())
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0:
                for c in e.children():
                    if c.sort() == I:
                        if has(c, Z): consts(c, out)
                        elif not z3.is_int_value(c): add(out, c)
                    scan(c, out, seen) if c.sort() != I or has(c, Z) else None
            else:
                for c in e.children(): scan(c, out, seen)
                if z3.is_const(e) and e.sort() == I and any(e.eq(k) for k in K): add(out, e)
        def consts(e, out):
            if z3.is_const(e) and not z3.is_int_value(e):
                if not e.eq(Z): add(out, e)
            for c in e.children(): consts(c, out)
        def add(out, c):
            if not any(c.eq(x) for x in out): out.append(c)
        seen = set()
        for b in [body] + conds: scan(b, ps, seen)
        if len(ps) > len(P): raise Unsupported("too many index parameters")
        pairs = list(zip(ps, P))
        return subst(body, pairs), [subst(c, pairs) for c in conds], ps
    def functional(self, name, body, n, filt=None, extra=()):
        """app of the functional `name` of the family body(Z), 0<=Z<n (restricted to filt(Z))"""
        b, (fc, nn), ps = self.canon(body, [filt if filt is not None else T, n], 0)
        key = (name, b.get_id(), fc.get_id(), nn.get_id(), tuple(extra)); self.keep += [b, fc, nn]
        if key not in self.keymap:
            f = z3.Function(f"{name}#{len(self.keymap)}", *([I] * len(ps)), R) if ps else z3.Real(f"{name}#{len(self.keymap)}")
            self.keymap[key] = (f, len(ps)); nm = f.name() if ps else f.decl().name()
            self.registry[nm] = dict(name=name, body=b, filt=fc, n=nn, extra=extra, key=key)
        f, m = self.keymap[key]
        app = f(*ps) if ps else f
        if not ps: self.const_apps().append(app)
        return app
    def const_apps(self):
        if not hasattr(self, "_ca"): self._ca = []
        return self._ca
    def rec(self, app):
        r = self.registry.get(app.decl().name())
        if r is None: return None
        ps = list(zip(P, app.children()))
        return dict(r, body=subst(r["body"], ps), filt=subst(r["filt"], ps), n=subst(r["n"], ps))
    def sum_term(self, body, n, filt=None):
        """z3 term for the sum of body(Z) over 0<=Z<n, in linear normal form"""
        p = poly(real(body))
        if filt is not None and not z3.is_true(filt): p = p_mul(p, indicator(filt))
        out = {}
        nv = z3.simplify(n)
        if z3.is_int_value(nv) and nv.as_long() <= 8:
            t = RV(0)
            for i in range(nv.as_long()): t = t + subst(p_term(p), [(Z, z3.IntVal(i))])
            return z3.simplify(t) if not p else t
        for m, c in p.items():
            dep = tuple((k, q) for k, q in m if has(ATOMS[k], Z)); free = tuple((k, q) for k, q in m if not has(ATOMS[k], Z))
            if not dep: s = poly(real(n))
            else: s = p_atom(self.functional("sum", p_term({dep: fractions.Fraction(1)}), n))
            out = p_add(out, p_mul({free: c}, s))
        return p_term(out)
    def sqrts(self, e):
        out = []; seen = set(); st = [e]
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id()); st += x.children()
            if z3.is_app(x) and x.decl().name() == "sqrt": out.append(x)
        return out
    def has_sum(self, g):
        return any(a.decl().name().startswith("sum#") for a in self.apps(g))
    def apps(self, e):
        out = []; seen = set(); st = [e]
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id()); st += x.children()
            if z3.is_app(x) and x.decl().name() in self.registry: out.append(x)
        return out
    def by_sum(self, g):
        """compare two linear combinations of sums term by term"""
        k = g.decl().kind()
        if k == z3.Z3_OP_AND:
            return "proved" if all(self.by_sum(c) == "proved" or self.entails(c) == "proved" for c in g.children()) else "unknown"
        if k == z3.Z3_OP_DISTINCT and g.num_args() == 2: return self.by_sum(g.children()[0] > g.children()[1])
        if k == z3.Z3_OP_NOT and z3.is_eq(g.children()[0]): a, b = g.children()[0].children(); return self.by_sum(a > b) if a.sort() == R else "unknown"
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT): return "unknown"
        a, b = g.children()
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT): a, b = b, a
        strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
        p = p_add(poly(real(a)), poly(real(b)), -1)          # show p >= 0
        # clear denominators that are positive
        for _ in range(4):
            neg = {kk for m in p for kk, q in m if q < 0}
            if not neg: break
            kk = sorted(neg)[0]; t = ATOMS[kk]
            if not self.positive(t): return "unknown"
            p = p_mul(p, p_atom(t)); p = p_simpl_den(p)
        return self.nonneg_sum(p, strict)
    def positive(self, t):
        if t.decl().name() == "den": t2 = t.children()[0]
        else: t2 = t
        key = ("pos", t2.get_id(), tuple(c.get_id() for c in self.pc))
        if not hasattr(self, "_pos"): self._pos = {}
        if key in self._pos: return self._pos[key]
        self.keep.append(t2); self._pos[key] = False
        r = self.entails(t2 > 0, 3000) == "proved"
        if not r and self.has_sum(t2): r = self.nonneg_sum(poly(t2), True) == "proved"
        self._pos[key] = r; return r
    def nonneg_sum(self, p, strict=False):
        groups = {}; const = {}
        for m, c in p.items():
            ss = [(kk, q) for kk, q in m if ATOMS[kk].decl().name().startswith("sum#")]
            if not ss: const[m] = c; continue
            if len(ss) > 1 or ss[0][1] != 1: return "unknown"
            r = self.rec(ATOMS[ss[0][0]]); rest = tuple(x for x in m if x != ss[0])
            groups.setdefault(r["n"].get_id(), [r["n"], {}]); self.keep.append(r["n"])
            g = groups[r["n"].get_id()]; g[1] = p_add(g[1], p_mul({rest: c}, poly(r["body"])))
        if len(groups) != 1: return "unknown"
        (n, body), = groups.values()
        nk = akey(z3.ToReal(n)) if not z3.is_int_value(n) else None
        rest = {}
        for m, c in const.items():
            d = dict(m)
            if nk is not None and d.get(nk, 0) >= 1:
                d[nk] -= 1; body = p_add(body, {tuple(sorted((a, q) for a, q in d.items() if q)): c})
            else: rest[m] = c
        t = p_term(body); i = self.fresh("i", I); t = subst(t, [(Z, i)])
        side = [i >= 0, i < n]
        if self.entails(t >= 0, None, side) != "proved": return "unknown"
        if rest and self.entails(p_term(rest) >= 0) != "proved": return "unknown"
        if strict:
            if rest and self.entails(p_term(rest) > 0) == "proved": return "proved"
            # a witness index with a positive term
            if self.entails(n > 0) == "proved" and self.entails(t > 0, None, side) == "proved": return "proved"
            for w in list(self.witnesses(t)):
                if self.entails(z3.And(w >= 0, w < n, subst(t, [(i, w)]) > 0), 3000) == "proved": return "proved"
            return "unknown"
        return "proved"
    def witnesses(self, e):
        """index terms named by the contracts of the functionals in e"""
        out = []; seen = set()
        for a in self.apps(e) + [x for c in self.pc for x in self.apps(c)]:
            for nm in ("lo", "hi", "wit"):
                w = getattr(self, "_wit", {}).get((a.get_id(), nm))
                if w is not None and w.get_id() not in seen: seen.add(w.get_id()); out.append(w)
        return out + self.index_terms
    # ------------------------------------------------------------ loops (called from the rewritten code)
    def iter(self, it):
        if isinstance(it, Arr):
            n = z3.simplify(it.shape_[0])
            if it.filt is None and z3.is_int_value(n): return [self.getitem(it, j) for j in range(n.as_long())]
            return SymEnum(self.length(it).e, lambda i, a=it: self.getitem(a, Num(i)))
        if isinstance(it, SymList): return SymEnum(it.n, lambda i, a=it: a[Num(i)])
        if isinstance(it, SymRange): return SymEnum(z3.simplify(it.hi - it.lo), lambda i, r=it: Num(z3.simplify(r.lo + i)))
        return it
    def conc(self, it): return not isinstance(it, Sym)
    def loop(self, fn, k, it): return Loop(self, fn, k, it)
    def wloop(self, fn, k):
        return Loop(self, fn, k, None) if (fn, k) in self.loops else None
    def tick(self, fn, k):
        self.ticks = getattr(self, "ticks", 0) + 1
        if self.ticks > 3000: raise Unsupported(f"loop {k} of {fn} has no invariant")
    def listcomp(self, f, it, cond):
        it = self.iter(it)
        if self.conc(it):
            return [f(t) for t in it if cond is None or cond(t)]
        if cond is not None: raise Unsupported("filtered comprehension over a symbolic sequence")
        return SymList(it.n, lambda i: f(it.fn(i)))
    def havoc(self, v, nm):
        if isinstance(v, Num): return Num(self.fresh(nm, v.e.sort()))
        if isinstance(v, Arr): return self.fresh_like(v, nm)
        if isinstance(v, builtins.bool): return Num(self.fresh(nm, B))
        if isinstance(v, builtins.int): return Num(self.fresh(nm, I))
        if isinstance(v, builtins.float): return Num(self.fresh(nm, R))
        if v is UNDEF: return UNDEF
        if v is None: return None
        raise Unsupported(f"loop variable {nm} needs an invariant ({core.short(v)})")
    def fresh_like(self, v, nm):
        self.uid += 1
        f = z3.Function(f"{nm}!{self.uid}", *([I] * v.ndim), v.body.sort())
        return Arr(v.shape_, f(*K[:v.ndim]), T, v.filt) if v.ndim else Num(self.fresh(nm, v.body.sort()))
    # ------------------------------------------------------------ builtins
    def builtins(self):
        d = self
        def rng(*a):
            a = [x if isinstance(x, Num) else x for x in a]
            try: return builtins.range(*[builtins.int(x) if not isinstance(x, Num) else x.__index__() for x in a])
            except Unsupported: pass
            lo, hi = (d.num(0), d.num(a[0])) if len(a) == 1 else (d.num(a[0]), d.num(a[1]))
            if len(a) > 2: raise Unsupported("range with a step")
            return SymRange(lo.e, hi.e)
        def ln(x):
            if isinstance(x, Arr): return simp(d.length(x))
            if isinstance(x, (SymList, SymEnum)): return Num(x.n)
            return builtins.len(x)
        def simp(n):
            v = z3.simplify(n.e)
            return v.as_long() if z3.is_int_value(v) else n
        def it(x=0, *a):
            if isinstance(x, Num):
                if x.e.sort() == I: return x
                if x.e.sort() == B: return d.astype(x, "int")
                return Num(trunc(x.e), x.ok)
            return builtins.int(x, *a)
        def fl(x=0.0):
            if isinstance(x, Num): return Num(real(x.e), x.ok)
            return builtins.float(x)
        def mx(op):
            bf = {"max": builtins.max, "min": builtins.min}[op]
            def f(*a, **k):
                if len(a) == 1 and isinstance(a[0], Arr): return d.handlers["numpy." + op](a[0])
                xs = list(a[0]) if len(a) == 1 else list(a)
                if not any(isinstance(x, Sym) for x in xs): return bf(*a, **k)
                r = d.num(xs[0])
                for x in xs[1:]: r = d.binary("maximum" if op == "max" else "minimum", r, d.num(x))
                return r
            return f
        def sm(x, s=0):
            if isinstance(x, (Arr, SymList)): return d.handlers["numpy.sum"](d.arr(x)) + s
            return builtins.sum(x, s)
        def zp(*a, **k):
            xs = [d.iter(x) for x in a]
            if all(d.conc(x) for x in xs): return builtins.zip(*xs)
            n = next(x.n for x in xs if not d.conc(x))
            return SymEnum(n, lambda i: tuple(x.fn(i) if not d.conc(x) else d.bad("zip of mixed lengths") for x in xs))
        def en(x, start=0):
            x = d.iter(x)
            if d.conc(x): return builtins.enumerate(x, start)
            return SymEnum(x.n, lambda i: (Num(i) + start if start else Num(i), x.fn(i)))
        def ls(x=()):
            x = d.iter(x) if isinstance(x, Sym) else x
            if d.conc(x): return builtins.list(x)
            return SymList(x.n, x.fn)
        def anyall(op):
            def f(x):
                x = d.iter(x)
                if d.conc(x): return getattr(builtins, op)(x)
                raise Unsupported(op + " over a symbolic sequence")
            return f
        class M(type):
            def __instancecheck__(c, x): return core.sym_isinstance(x, c.real)
            def __eq__(c, o): return o is c.real or builtins.type.__eq__(c, o)
            def __hash__(c): return hash(c.real)
            def __or__(c, o): return c.real | (o.real if isinstance(o, M) else o)
        def ty(name, conv, r):
            return M(name, (), {"__new__": lambda cls, *a, **k: conv(*a, **k), "real": r})
        def isinst(x, c):
            if isinstance(c, tuple): return builtins.any(isinst(x, y) for y in c)
            if builtins.isinstance(c, M): c = c.real
            return core.sym_isinstance(x, c)
        def rd(x, nd=None):
            if isinstance(x, Sym): return d.handlers["numpy.round"](x, nd or 0)
            return builtins.round(x, nd) if nd is not None else builtins.round(x)
        return dict(range=rng, len=ln, int=ty("int", it, builtins.int), float=ty("float", fl, builtins.float), max=mx("max"), min=mx("min"), sum=sm, zip=zp, enumerate=en,
                    list=ty("list", ls, builtins.list), isinstance=isinst, any=anyall("any"), all=anyall("all"), print=lambda *a, **k: None, round=rd,
                    abs=lambda x: abs(x))
    def bad(self, m): raise Unsupported(m)

def dagsize(e):
    seen = set(); st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id()); st += x.children()
    return len(seen)

def p_num(p):
    """numerator of p after multiplying all inverse powers away (zero iff p is zero wherever defined)"""
    for _ in range(12):
        low = {}
        for m in p:
            for k, q in m:
                if q < 0: low[k] = min(low.get(k, 0), q)
        dens = [k for k in low]
        if not dens:
            # expand den(e) atoms that remain positive
            return p
        k = dens[0]; q = -low[k]
        p = p_mul(p, {((k, q),): fractions.Fraction(1)}); p = p_simpl_den(p)
    return p

def p_simpl_den(p):
    """den(e)^q with q>0 -> e^q ; sqrt(e)^2 -> e"""
    out = {}
    for m, c in p.items():
        t = {(): c}
        for k, q in m:
            a = ATOMS[k]; nm = a.decl().name()
            if nm == "den" and q > 0:
                for _ in range(q): t = p_mul(t, poly(a.children()[0]))
            elif nm == "sqrt" and abs(q) >= 2:
                h = q // 2 if q > 0 else -((-q) // 2)
                base = poly(a.children()[0])
                for _ in range(abs(h)): t = p_mul(t, base if h > 0 else p_inv(base))
                if q - 2 * h: t = p_mul(t, {((k, q - 2 * h),): fractions.Fraction(1)})
            else: t = p_mul(t, {((k, q),): fractions.Fraction(1)})
        out = p_add(out, t)
    return out

class Loop:
    def __init__(self, d, fn, k, it):
        self.d = d; self.key = (fn, k); self.it = it; self.spec = d.loops.get(self.key)
        if self.spec is None: raise Unsupported(f"loop {k} of {fn} has no invariant")
        d.used.add(self.key)
    def enter(self, loc, names):
        d = self.d; st = dict(loc); self.names = names
        self.label = f"loop {self.key[1]} of {self.key[0].split(':')[1]}"
        lo = z3.IntVal(0)
        for nm, c in (self.spec.inv(st, lo) if self.spec.inv else []):
            d.prove(f"{self.label}: invariant '{nm}' holds on entry", c)
        new = {n: d.havoc(st.get(n, UNDEF), n) for n in names if not (self.spec.havoc and n in self.spec.havoc)}
        if self.spec.havoc:
            for n, f in self.spec.havoc.items():
                if n in names: new[n] = f(d, st)
        if self.spec.objs: self.spec.objs(d, st)
        st.update({k: v for k, v in new.items() if v is not UNDEF})
        self.i = d.fresh("it", I); d.assume(self.i >= 0); self.st = st
        if self.it is not None: d.assume(self.i <= self.it.n)
        d.index_terms.append(self.i)
        for nm, c in (self.spec.inv(st, self.i) if self.spec.inv else []): d.assume(c)
        return tuple(new[n] for n in names)
    def more(self): return self.d.branch(self.i < self.it.n)
    def item(self): return self.it.fn(self.i)
    def back(self, loc):
        d = self.d
        for nm, c in (self.spec.inv(dict(loc), self.i + 1) if self.spec.inv else []):
            d.prove(f"{self.label}: invariant '{nm}' preserved", c)
        raise PathEnd()

"""Domain F (ownership, frames and non-interference): abstract interpretation of the real functions' syntax, callees inlined at every call.

A value carries: which of the caller's memory it may share (`al`), the configuration expression it equals if it depends on the
configuration alone (`ck`), its constant, its kinds, and the heap objects it may be.  A state maps locals, object attributes (each with a
status: configuration, left over from earlier calls, written in this call, absent) and the global random state (seeded in this call or not).
Branches on constants are decided, branches on configuration alone are explored one by one (the same expression always the same way), all
others are joined; loops are iterated to a fixed point.  Library functions are used through contracts: the result is fresh or may share
memory with an argument, an argument may be written, the global random generator may be read.  Nothing is assumed of an unlisted function:
it makes the unit 'unsupported'."""
import ast, os, core
from core import Unsupported
import frame
from frame import load, exists, dotted

class NOC:
    def __repr__(self): return "NOC"
NOC = NOC()
E0 = frozenset()

class V:
    __slots__ = ("kinds", "al", "ck", "const", "refs", "tup")
    def __init__(self, kinds=E0, al=E0, ck=None, const=NOC, refs=E0, tup=None):
        self.kinds = frozenset(kinds); self.al = frozenset(al); self.ck = ck; self.const = const; self.refs = frozenset(refs); self.tup = tup
    def __repr__(self): return f"V({'|'.join(sorted(self.kinds))}{' al=' + ','.join(sorted(self.al)) if self.al else ''}{' ck=' + self.ck if self.ck else ''}{' =' + repr(self.const) if self.const is not NOC else ''}{' ' + str(sorted(map(str, self.refs))) if self.refs else ''}{' ' + str(self.tup) if self.tup is not None else ''})"
    def key(self): return (self.kinds, self.al, self.ck, repr(self.const), type(self.const).__name__, self.refs, None if self.tup is None else tuple(t.key() for t in self.tup))
    def __eq__(self, o): return isinstance(o, V) and self.key() == o.key()
    def __hash__(self): return hash(self.key())
    def but(self, **k):
        r = V(self.kinds, self.al, self.ck, self.const, self.refs, self.tup)
        for a, b in k.items(): setattr(r, a, b)
        return r
ANY = frozenset({"any"})
def join(a, b):
    if a is None: return b
    if b is None or a is b or a == b: return a
    same = a.const is not NOC and b.const is not NOC and type(a.const) is type(b.const) and a.const == b.const
    tup = None; al = a.al | b.al; refs = a.refs | b.refs
    if a.tup is not None and b.tup is not None and len(a.tup) == len(b.tup): tup = tuple(join(x, y) for x, y in zip(a.tup, b.tup))
    else:
        for t in (a.tup, b.tup):
            for x in t or (): al |= x.al; refs |= x.refs
    return V(a.kinds | b.kinds, al, a.ck if a.ck == b.ck else None, a.const if same else NOC, refs, tup)
def arrv(al=E0, ck=None, kinds=("arr",)): return V(kinds, al, ck)
def cval_(c, ck="k"):
    k = "none" if c is None else "bool" if isinstance(c, bool) else "num" if isinstance(c, (int, float)) else "str" if isinstance(c, str) else "other"
    return V({k}, ck=f"const:{c!r}", const=c)
NONE = cval_(None)

GLOB = "a module-level object or default value"; GEN = "numpy.random.Generator"
class State:
    def __init__(self): self.env = {}; self.heap = {}; self.seed = "no"
    def copy(self):
        s = State(); s.env = {k: dict(v) for k, v in self.env.items()}; s.heap = {k: dict(v) for k, v in self.heap.items()}; s.seed = self.seed; return s
    def key(self): return (self.env, self.heap, self.seed)
    def same(self, o): return self.seed == o.seed and self.env == o.env and self.heap == o.heap
ABSENT = "absent"
def joinst(a, b):
    if a is None: return b
    if b is None: return a
    s = State(); s.seed = a.seed if a.seed == b.seed else "no"
    for f in set(a.env) | set(b.env):
        x, y = a.env.get(f), b.env.get(f)
        if x is None or y is None: s.env[f] = dict(x or y); continue
        s.env[f] = {n: (join(x.get(n), y.get(n)) if n in x and n in y else join(x.get(n) or y.get(n), None).but(kinds=(x.get(n) or y.get(n)).kinds | {"unbound"})) for n in set(x) | set(y)}
    for o in set(a.heap) | set(b.heap):
        x, y = a.heap.get(o), b.heap.get(o)
        if x is None or y is None: s.heap[o] = dict(x or y); continue
        m = {}
        for n in set(x) | set(y):
            if n in x and n in y: m[n] = (join(x[n][0], y[n][0]), x[n][1] | y[n][1])
            else:
                v, t = x.get(n) or y.get(n); m[n] = (v, t | {ABSENT})
        s.heap[o] = m
    return s

class Raised(Exception): pass
class NeedFork(Exception): pass

class Fn:
    """a function value: its code, its module, the object it is bound to, the frame it closes over"""
    def __init__(self, node, mod, cls=None, bound=None, clos=None, owner=None): self.node = node; self.mod = mod; self.cls = cls; self.bound = bound; self.clos = clos; self.owner = owner

class Interp:
    maxdepth = 40
    def __init__(self, unit, src=None):
        self.src = src or core.SRC; self.unit = unit; self.F = frame.Frame(self.src); self.F.relevant = {}; self.fns = {}; self.objcls = {}; self.fids = {}; self.tries = []; self.fork = True; self.split = False; self.level = 2; self.forkable = True; self.depth = 0; self.stack = []
        self.facts = {}        # obligation name -> ok?
        self.trust = set(); self.visited = set(); self.dec = {}; self.newdec = []; self.cfgwrites_ok = set(); self.noseed = False; self.site = {}; self.ctx = (); self.tracked = set(); self.okstale = set(); self.mode = set()
        self.loopdepth = 0
    # ---------------------------------------------------------------- obligations
    def fact(self, name, ok, detail=""):
        o = self.facts.get(name)
        self.facts[name] = (ok and (o is None or o[0]), detail if not ok else (o[1] if o else ""))
    def where(self, node=None):
        s = self.stack[-1] if self.stack else None
        return s.owner if s else self.unit
    def write(self, v, node, what):
        """memory of v is written"""
        al = sorted(v.al)
        self.fact(f"{self.where()}: {what} writes no memory of the caller, of the configuration or of the module", not al, f"may be memory of {', '.join(al)}; line {getattr(node, 'lineno', '?')}: {ast.unparse(node)[:160]}")
    # ---------------------------------------------------------------- objects
    def clskey(self, M, name): return M.name + ":" + name
    def newobj(self, cls, tag):
        """object of a robpy class at an allocation site"""
        self.objcls[tag] = cls; return V({"obj"}, refs={("obj", tag)})
    def mro(self, cls):
        m, n = cls.split(":"); return self.F.mro(load(m, self.src), n)
    def external_bases(self, cls):
        out = []
        for M, c in self.mro(cls):
            for b in c.bases:
                d = dotted(b)
                if d is None: continue
                r = d.split(".")[0]
                if r in M.classes: continue
                full = M.imports.get(r, r) + d[len(r):]
                if not full.startswith("robpy"): out.append(full)
        return out
    def find(self, cls, name):
        for M, c in self.mro(cls):
            for n in c.body:
                if isinstance(n, ast.FunctionDef) and n.name == name: return M, c, n
        return None
    def findattr(self, cls, name):
        for M, c in self.mro(cls):
            for n in c.body:
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets): return M, n.value
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == name and n.value is not None: return M, n.value
        return None
    def subclasses(self, cls):
        """concrete robpy classes deriving from cls"""
        out = []
        base = os.path.join(self.src, "robpy")
        for dp, dn, fn in os.walk(base):
            for f in fn:
                if f.endswith(".py"):
                    m = os.path.relpath(os.path.join(dp, f), self.src)[:-3].replace(os.sep, ".")
                    if m.endswith("__init__"): continue
                    M = load(m, self.src)
                    for c in M.classes:
                        k = m + ":" + c
                        if any(x.name + ":" + y.name == cls for x, y in self.mro(k)) and k != cls: out.append(k)
        return sorted(out)
    def isprop(self, n): return any((dotted(d) or "") in ("property", "cached_property", "functools.cached_property") for d in n.decorator_list)
    def decorators(self, n):
        for d in n.decorator_list:
            x = dotted(d.func if isinstance(d, ast.Call) else d) or "?"
            if x not in ("property", "staticmethod", "classmethod", "abstractmethod", "abc.abstractmethod", "cached_property", "functools.cached_property", "override", "typing.override", "overload") and not x.endswith((".setter", ".getter")): raise Unsupported(f"decorator {x}")
    def iscached(self, n): return any((dotted(d) or "").endswith("cached_property") for d in n.decorator_list)
    def isstatic(self, n): return any(dotted(d) == "staticmethod" for d in n.decorator_list)
    def isclassm(self, n): return any(dotted(d) == "classmethod" for d in n.decorator_list)
    # ---------------------------------------------------------------- attribute access
    def getattr(self, st, v, name, node):
        out = None; miss = False
        if name == "__class__" and v.refs:
            return V({"cls"}, refs={("cls", self.objcls[r[1]]) for r in v.refs if r[0] == "obj"})
        for r in v.refs:
            if r[0] == "obj":
                x = self.objattr(st, r[1], name, node, v)
            elif r[0] == "lib": x = self.libattr(r[1] + "." + name)
            elif r[0] == "libobj": x = self.libobjattr(v, r[1], name)
            elif r[0] in ("list", "dict", "kw", "objdict"): x = V({"meth"}, refs={("meth", name, V(v.kinds, v.al, v.ck, refs={r}))})
            elif r[0] == "cls": x = self.clsattr(st, r[1], name, node)
            elif r[0] == "mod": x = self.modattr(r[1], name)
            elif r[0] == "super": x = self.superattr(st, r, name)
            elif r[0] == "libmeth" and r[1].startswith(("matplotlib", "logging", "exception", "file")): x = V({"libobj"}, refs={("libobj", r[1])})
            elif r[0] == "meth" or r[0] == "fn": x = V(ANY)
            else: raise Unsupported(f"attribute {name} of {r}")
            out = join(out, x)
        if v.kinds - {"obj", "list", "dict", "cls", "lib", "libobj", "mod", "fn", "meth", "none", "super", "unbound", "objdict", "kw"} or not v.refs:
            out = join(out, self.valattr(v, name))
        return out
    def objattr(self, st, oid, name, node, v, quiet=False):
        h = st.heap.setdefault(oid, {}); cls = self.objcls[oid]
        if name in h:
            x, status = h[name]
            if "stale" in status and not quiet:
                self.stale(cls, name, node)
            return x
        if name == "__dict__": return V({"objdict"}, refs={("objdict", oid)})
        f = self.find(cls, name)
        if f is not None:
            M, c, n = f; me = V({"obj"}, refs={("obj", oid)}); own = f"{M.name}:{c.name}.{n.name}"
            if self.isprop(n):
                r = self.call(st, Fn(n, M, cls, me, owner=own), [], {}, node)
                if self.iscached(n): st.heap.setdefault(oid, {})[name] = (r, frozenset({"own"}))
                return r
            b = None if self.isstatic(n) else V({"cls"}, refs={("cls", cls)}) if self.isclassm(n) else me
            return self.fnv(Fn(n, M, cls, b, owner=own))
        a = self.findattr(cls, name)
        if a is not None: return self.modexpr(a[0], a[1])
        if any(b for b in self.external_bases(cls)): 
            return V({"meth"}, refs={("extmeth", oid, name)})
        return V(ANY)      # never set: an AttributeError
    def stale(self, cls, name, node):
        if "stale" not in self.mode: return
        self.fact(f"{self.where()}: reads of self.{name} see only what this call or the configuration set", False, f"line {getattr(node, 'lineno', '?')}: self.{name} may be left over from an earlier call")
    def fnv(self, f):
        k = (id(f.node), f.mod.name, f.cls, f.bound.key() if f.bound is not None else None, f.clos)
        self.fns.setdefault(k, f); return V({"fn"}, refs={("fn", k)})
    def clsattr(self, st, cls, name, node):
        f = self.find(cls, name)
        if f is not None:
            M, c, n = f; own = f"{M.name}:{c.name}.{n.name}"
            return self.fnv(Fn(n, M, cls, V({"cls"}, refs={("cls", cls)}) if self.isclassm(n) else None, owner=own))
        a = self.findattr(cls, name)
        if a is not None: return self.modexpr(a[0], a[1])
        if name == "__name__": return V({"str"})
        raise Unsupported(f"{cls}.{name}")
    def superattr(self, st, r, name):
        _, oid, cls, after = r; mro = self.mro(cls); i = next(i for i, (M, c) in enumerate(mro) if M.name + ":" + c.name == after)
        for M, c in mro[i + 1:]:
            for n in c.body:
                if isinstance(n, ast.FunctionDef) and n.name == name:
                    me = V({"obj"}, refs={("obj", oid)}); return self.fnv(Fn(n, M, cls, None if self.isstatic(n) else me, owner=f"{M.name}:{c.name}.{name}"))
        return V({"meth"}, refs={("extmeth", oid, name)})
    def setattr(self, st, v, name, x, node):
        tg = [r for r in v.refs if r[0] == "obj"]
        for r in tg:
            h = st.heap.setdefault(r[1], {}); cls = self.objcls[r[1]]; old = h.get(name)
            f = self.find(cls, name)
            if f is not None and any(isinstance(d, ast.Attribute) for d in f[2].decorator_list): raise Unsupported("property setter")
            if old is not None and "cfg" in old[1] and r[1] in self.tracked and name not in self.cfgwrites_ok:
                self.fact(f"{self.where()}: configuration {name} is not written", x == old[0], f"line {getattr(node, 'lineno', '?')}: {ast.unparse(node)[:120]}")
            if r[1] in self.tracked: self.attrwrites.add((r[1], name))
            if len(v.refs) == 1 and (r[1] in self.tracked or not self.loopdepth): h[name] = (x, frozenset({"own"}))
            elif len(v.refs) == 1: h[name] = (x if old is None else join(old[0], x), frozenset({"own"}))
            else: h[name] = (join(old[0], x), old[1] | {"own"}) if old is not None else (x, frozenset({"own", ABSENT}))
        if not tg and any(r[0] == "libobj" for r in v.refs): return
        if not tg:
            if name in ("columns", "index", "name", "shape", "flags", "dtype"): self.write(v, node, f"{name} =")
            elif not v.refs: self.write(v, node, f".{name} =")
            else: raise Unsupported(f"attribute assignment {ast.unparse(node)[:80]}")
    def delattr(self, st, oid, name):
        h = st.heap.setdefault(oid, {}); old = h.get(name)
        if old is not None and "cfg" in old[1] and oid in self.tracked: self.fact(f"{self.where()}: configuration {name} is not written", False, "deleted")
        if oid in self.tracked: self.attrwrites.add((oid, name))
        h.pop(name, None); self.latent.get(oid, set()).discard(name) if False else None
        self.deleted = getattr(self, "deleted", set()) | {(oid, name)}
    # ---------------------------------------------------------------- module level
    def modattr(self, m, name):
        M = load(m, self.src)
        if name in M.fns: return self.fnv(Fn(M.fns[name], M, owner=f"{M.name}:{name}"))
        if name in M.classes: return V({"cls"}, refs={("cls", M.name + ":" + name)})
        if name in M.imports:
            full = M.imports[name]
            if full.startswith("robpy"):
                r = self.F.resolve(full)
                if r is None: raise Unsupported(f"{full}")
                if r[1] == "module": return V({"mod"}, refs={("mod", r[0].name)})
                return self.modattr(r[0].name, r[2])
            return self.libattr(full)
        if name in M.globals:
            for n in M.tree.body:
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets): return self.modexpr(M, n.value)
        for n in ast.walk(M.tree):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets): return V(ANY)
        sub = m + "." + name
        if exists(sub, self.src): return V({"mod"}, refs={("mod", sub)})
        raise Unsupported(f"{m}.{name}")
    def modexpr(self, M, e):
        """a module or class level expression: its own little frame"""
        try: return cval_(ast.literal_eval(e)) if not isinstance(e, (ast.Dict, ast.List, ast.Set)) else V({"const"}, {GLOB}, ck=f"const:{ast.unparse(e)[:200]}")
        except Exception: pass
        d = dotted(e.func) if isinstance(e, ast.Call) else None
        if d and d.endswith("getLogger"): return V({"libobj"}, refs={("libobj", "logging.Logger")})
        k = (M.name, ast.dump(e))
        if k in self.site: return self.site[k]
        st = self.st0 if hasattr(self, "st0") else State(); fid = self.frame(e, e); st.env[fid] = {}
        f = Fn(None, M, owner=M.name); f.fid = fid; self.stack.append(f)
        try: v = self.ev(st, e)
        finally: self.stack.pop()
        if any(r[0] == "libobj" and r[1] == GEN for r in v.refs): v = v.but(refs=frozenset({("libobj", GEN + ".kept")}))
        if v.kinds - {"num", "str", "bool", "none", "fn", "cls", "lib", "libobj", "obj", "tuple", "meth", "libmeth"}: v = v.but(al=v.al | {GLOB})
        self.site[k] = v; return v
    def frame(self, site, callee):
        """a frame is identified by its chain of call sites"""
        up = self.stack[-1].fid if self.stack else None
        pos = lambda x: (type(x).__name__, getattr(x, "lineno", 0), getattr(x, "col_offset", 0), getattr(x, "end_col_offset", 0))
        k = (up, self.stack[-1].mod.name if self.stack else "", pos(site), pos(callee), getattr(callee, "name", ""))
        if k not in self.fids: self.fids[k] = len(self.fids) + 1
        return self.fids[k]
    # ---------------------------------------------------------------- values of unknown type: arrays, frames, numbers
    def valattr(self, v, name):
        if name in VIEWPROPS: return v.but(const=NOC, ck=None, tup=None, refs=E0, kinds=frozenset({"arr"}))
        if name in PROPS: return V({"num"} if name in ("size", "ndim") else ANY, ck=f"{v.ck}.{name}" if v.ck else None, tup=None) if name != "shape" else V({"tuple"}, ck=f"{v.ck}.shape" if v.ck else None)
        if name in ("iloc", "loc", "iat", "at"): return v.but(const=NOC, ck=None, tup=None, refs=E0, kinds=frozenset({"locator"}))
        return V({"meth"}, refs={("meth", name, V(v.kinds, v.al, v.ck, v.const))})
    def libattr(self, path):
        if path in LIBVALUES: return V(LIBVALUES[path], ck=f"lib:{path}")
        return V({"lib"}, refs={("lib", path)}, ck=f"lib:{path}")
    def libobjattr(self, v, cls, name):
        if cls.startswith(GEN) or cls == "entropy": return V({"meth"}, refs={("libmeth", cls, name, v.al)})
        if name in LIBOBJ.get(cls, {}).get("data", ()): return V({"arr"}, v.al)
        return V({"meth"}, refs={("libmeth", cls, name, v.al)})
    # ---------------------------------------------------------------- calls
    def call(self, st, f, args, kw, node):
        n = f.node
        if isinstance(n, ast.FunctionDef): self.decorators(n)
        if self.depth > self.maxdepth: raise Unsupported(f"recursion through {getattr(n, 'name', 'lambda')}")
        if sum(1 for g in self.stack if g.node is n) > 2: raise Unsupported(f"recursion through {getattr(n, 'name', 'lambda')}")
        fid = self.frame(node, n); env = {}; a = n.args; pos = [x.arg for x in a.posonlyargs + a.args]
        if f.bound is not None: args = [f.bound] + list(args)
        star = [x for x in args if isinstance(x, tuple)]; 
        if star: raise Unsupported("*args in a call")
        for p, v in zip(pos, args): env[p] = v
        if len(args) > len(pos):
            if not a.vararg: raise Raised()
            al = E0
            for x in args[len(pos):]: al |= x.al
            env[a.vararg.arg] = V({"tuple"}, al, tup=tuple(args[len(pos):]))
        elif a.vararg: env[a.vararg.arg] = V({"tuple"}, tup=())
        extra = {}
        for k, v in kw.items():
            if k in pos or k in [x.arg for x in a.kwonlyargs]: env[k] = v
            else: extra[k] = v
        if a.kwarg:
            env[a.kwarg.arg] = V({"dict"}, al=frozenset().union(*[x.al for x in extra.values()]) if extra else E0, refs={("kw", tuple(sorted(extra)))})
            self.kwd = getattr(self, "kwd", {}); self.kwd[(fid, a.kwarg.arg)] = extra
        elif extra: raise Raised()
        dfl = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults)); dfl.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for p in pos + [x.arg for x in a.kwonlyargs]:
            if p not in env:
                if p not in dfl: raise Raised()
                env[p] = self.modexpr(f.mod, dfl[p])
        f2 = Fn(n, f.mod, f.cls, f.bound, f.clos, f.owner); f2.fid = fid
        if fid in st.env and self.captured(fid): env.update({x: join(y, env.get(x)) for x, y in st.env[fid].items()})
        st.env[fid] = env; self.visited.add(f.owner or "lambda"); self.stack.append(f2); self.depth += 1
        try:
            if isinstance(n, ast.Lambda): return self.ev(st, n.body)
            gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n))
            if gen: raise Unsupported("generator function")
            end, outs = self.block(st.copy(), n.body)
            rv = None; rs = None
            for kind, s, v in outs:
                if kind == "return": rv = join(rv, v); rs = joinst(rs, s)
                elif kind in ("break", "continue"): raise Unsupported("stray break")
                elif self.tries: self.tries[-1] = joinst(self.tries[-1], s)
            if end is not None: rv = join(rv, NONE); rs = joinst(rs, end)
            if rs is None: raise Raised()
            if not self.captured(fid): rs.env.pop(fid, None)
            st.env, st.heap, st.seed = rs.env, rs.heap, rs.seed
            return rv
        finally: self.stack.pop(); self.depth -= 1
    def captured(self, fid): return any(f.clos == fid for f in self.fns.values())
    def callv(self, st, fv, args, kw, node):
        out = None; sts = None; base = st.copy(); raised = 0; refs = sorted(fv.refs, key=str)
        if not refs: 
            if fv.kinds - {"none", "num", "str", "bool"}: raise Unsupported(f"call of an unknown value: {ast.unparse(node)[:80]}")
            raise Raised()
        for r in refs:
            s = base.copy() if len(refs) > 1 else st
            try: v = self.call1(s, r, args, kw, node, fv)
            except Raised: raised += 1; continue
            out = join(out, v); sts = joinst(sts, s)
        if sts is None: raise Raised()
        if sts is not st: st.env, st.heap, st.seed = sts.env, sts.heap, sts.seed
        return out
    def call1(self, st, r, args, kw, node, fv):
        if r[0] == "fn": return self.call(st, self.fns[r[1]], args, kw, node)
        if r[0] == "cls": return self.construct(st, r[1], args, kw, node)
        if r[0] == "lib": return self.lib(st, r[1], args, kw, node)
        if r[0] == "meth": return self.method(st, r[2], r[1], args, kw, node)
        if r[0] == "libmeth": return self.libmeth(st, r[1], r[2], r[3], args, kw, node)
        if r[0] == "extmeth": return self.extmeth(st, r[1], r[2], args, kw, node)
        if r[0] == "obj":
            f = self.objattr(st, r[1], "__call__", node, None); return self.callv(st, f, args, kw, node)
        if r[0] == "userfn": self.trust.add("callables passed in the configuration are pure functions"); return V(ANY, ck=self.ckof("userfn", args, kw))
        if r[0] == "libobj" and r[1].startswith(("matplotlib", "logging")): return V({"libobj"}, refs={r})
        raise Unsupported(f"call of {r}")
    def construct(self, st, cls, args, kw, node):
        # the object's identity: the allocation site
        tag = f"{cls.split(':')[1]}@{self.where()}:{getattr(node, 'lineno', 0)}:{getattr(node, 'col_offset', 0)}"
        if self.allraises(cls): raise Raised()
        o = self.newobj(cls, tag)
        old = st.heap.get(tag)
        if old is not None and self.loopdepth: self.merge_on = True
        else: st.heap[tag] = {}
        f = self.find(cls, "__init__")
        c = self.mro(cls)[0][1]
        if f is None and any((dotted(d.func) if isinstance(d, ast.Call) else dotted(d) or "").endswith("dataclass") for M, c in self.mro(cls) for d in c.decorator_list):
            fields = []
            for M, c in reversed(self.mro(cls)):
                for n in c.body:
                    if isinstance(n, ast.AnnAssign): fields.append((M, n.target.id, n.value))
            vals = dict(zip([x[1] for x in fields], args)); vals.update(kw)
            for M, nm, d in fields:
                if nm not in vals:
                    if d is None: raise Raised()
                    vals[nm] = self.modexpr(M, d)
                h = st.heap[tag]; h[nm] = (join(h[nm][0], vals[nm]) if nm in h else vals[nm], frozenset({"own"}))
            return o
        if f is None:
            if not self.external_bases(cls) and (args or kw): raise Raised()
            return o
        M, c, n = f
        self.call(st, Fn(n, M, cls, o, owner=f"{M.name}:{c.name}.__init__"), args, kw, node)
        return o
    def allraises(self, cls): return any(b.split(".")[-1] in ("Exception", "ValueError", "Warning") for b in self.external_bases(cls))
    def ckof(self, name, args, kw):
        ks = [a.ck if isinstance(a, V) else None for a in args] + [v.ck for v in kw.values()]
        if any(k is None for k in ks): return None
        return f"{name}({','.join(ks)}{',' + ','.join(kw) if kw else ''})"[:400]
    def als(self, args, kw=()):
        s = E0
        for a in list(args) + list(dict(kw).values()):
            s |= a.al
            for t in a.tup or (): s |= self.als([t])
        return s
    def deep(self, st, v, seen=None):
        """memory reachable from v"""
        seen = set() if seen is None else seen; s = set(v.al)
        for t in v.tup or (): s |= self.deep(st, t, seen)
        for r in v.refs:
            if r[0] in ("obj", "list", "dict") and r[1] not in seen:
                seen.add(r[1])
                for x, _ in st.heap.get(r[1], {}).values(): s |= self.deep(st, x, seen)
        return frozenset(s)
    def elem(self, st, v):
        """an element of an iterable"""
        out = None
        if v.tup is not None:
            for t in v.tup: out = join(out, t)
            return out
        for r in v.refs:
            if r[0] in ("list", "dict"):
                x = st.heap.get(r[1], {}).get("*")
                if x is not None: out = join(out, x[0])
            elif r[0] == "kw":
                out = join(out, V({"str"}))
            elif r[0] == "libobj": out = join(out, V({"libobj"}, refs={r}) if r[1].startswith(("matplotlib", "logging")) else V(ANY, v.al))
        if v.kinds - {"list", "dict", "libobj", "unbound", "none"} or not v.refs:
            k = {"num"} if "range" in v.kinds else {"str"} if v.kinds == {"str"} else {"arr", "num"}
            out = join(out, V(k, v.al if "range" not in v.kinds else E0))
        return out
    def isempty(self, st, v):
        if v.tup is not None: return len(v.tup) == 0
        if v.refs and all(r[0] == "list" for r in v.refs) and not (v.kinds - {"list"}): return all("*" not in st.heap.get(r[1], {}) for r in v.refs)
        return False
    def mklist(self, st, node, elems, tag=""):
        t = f"list@{self.where()}:{getattr(node, 'lineno', 0)}:{getattr(node, 'col_offset', 0)}{tag}"
        h = st.heap.get(t)
        cur = h["*"][0] if h and "*" in h and self.loopdepth else None
        for e in elems: cur = join(cur, e)
        st.heap[t] = {"*": (cur.but(ck=None, const=NOC), frozenset({"own"}))} if cur is not None else {}
        if cur is not None and len(elems) == 1: st.heap[t] = {"*": (cur, frozenset({"own"}))}
        return V({"list"}, refs={("list", t)})
    def addelem(self, st, v, x, node=None):
        if v.al: self.write(v, node if node is not None else ast.Constant(0), "adding an element")
        for r in v.refs:
            if r[0] in ("list", "dict"):
                h = st.heap.setdefault(r[1], {}); o = h.get("*"); h["*"] = (join(o[0], x) if o else x, frozenset({"own"}))
    # ---------------------------------------------------------------- library
    def randread(self, st, what, node):
        self.fact(f"{self.where()}: {what} draws from a generator seeded in this call", st.seed == "yes", f"line {getattr(node, 'lineno', '?')}: the global random state decides here")
    def lib(self, st, path, args, kw, node):
        kw = dict(kw); base = path.split(".")[-1]; al = self.als(args, kw); full = path
        if "out" in kw and kw["out"].kinds != {"none"} and path.startswith("numpy."):
            self.write(kw["out"], node, f"{base}(out=)"); return kw["out"]
        if path.startswith("builtins."): return self.builtin(st, base, args, kw, node)
        if path in ("numpy.random.seed", "random.seed"):
            if path == "numpy.random.seed":
                ok = bool(args) and "none" not in args[0].kinds and not (args[0].kinds & ANY)
                self.fact(f"{self.where()}: the global generator is seeded with a given number", ok, f"{ast.unparse(node)[:100]} with {args and args[0]}"); st.seed = "yes" if ok else "no"
            return NONE
        if path in ("numpy.random.default_rng", "numpy.random.RandomState", "sklearn.utils.check_random_state"):
            if args and any(r[0] == "libobj" and r[1].startswith(GEN) for r in args[0].refs): return args[0]
            ok = bool(args) and "none" not in args[0].kinds and not (args[0].kinds & ANY)
            v = args[0] if args else kw.get("seed")
            if v is not None: ok = "none" not in v.kinds and not (v.kinds & ANY)
            if "seeds" in self.mode: self.fact(f"{self.where()}: {base} gets the seed", ok, f"line {node.lineno}: {ast.unparse(node)[:100]} with {v}")
            return V({"libobj"}, refs={("libobj", GEN)})
        if path.startswith("numpy.random.") or path.startswith("random."):
            if "seeds" in self.mode: self.randread(st, path, node)
            if base == "shuffle": self.write(args[0], node, "shuffle"); return NONE
            return V({"arr", "num"})
        if any(path.startswith(a) for a in ("time.", "datetime", "uuid", "secrets")) or path in ("os.getpid", "os.urandom", "os.times"):
            if "seeds" in self.mode: self.fact(f"{self.where()}: no clock or other ambient state is read", False, f"{ast.unparse(node)[:100]}")
            return V(ANY)
        if path.startswith(("matplotlib", "seaborn", "logging", "warnings", "tqdm")):
            if base == "tqdm": return args[0] if args else V(ANY)
            self.trust.add(path.split(".")[0] + " functions write none of their arguments"); return V({"libobj"}, refs={("libobj", "matplotlib" if path[:1] != "l" else "logging")})
        if path == "sklearn.utils.validation.validate_data":
            o = args[0] if args else kw.get("_estimator")
            self.setattr(st, o, "n_features_in_", V({"num"}), node); return V({"arr"}, al)
        if path in LIBCLASSES or (base[:1].isupper() and path.split(".")[0] in ("sklearn", "statsmodels") and path.split(".")[-1] in ("LinearRegression", "PCA", "WLS", "OLS", "Ridge", "EmpiricalCovariance", "StandardScaler", "Bunch")):
            if base == "PCA":
                ok = not (args or "n_components" in kw) or kw.get("svd_solver", NONE).const == "full" or "random_state" in kw
                if "seeds" in self.mode: self.fact(f"{self.where()}: PCA uses no random solver", ok, ast.unparse(node)[:100])
            self.trust.add(f"{path}: its methods write none of their arguments and are deterministic"); return V({"libobj"}, al if base in ("DataFrame", "Series") else E0, refs={("libobj", path)})
        if base.endswith(("Error", "Warning", "Exception")): return V({"libobj"}, refs={("libobj", "exception")})
        root = path.split(".")[0]; short = path[6:] if root == "numpy" else path
        if root == "numpy":
            if base in NP_MUT:
                self.write(args[NP_MUT[base]], node, base); return NONE
            if base in NP_ALIAS or path in NP_ALIAS:
                if kw.get("copy", NONE).const is True and base != "nan_to_num": al = E0
                return V({"arr"}, al, self.ckof(path, args, kw)).but(kinds=frozenset({"arr"}) if base not in ("broadcast_arrays", "array_split", "split") else frozenset({"arr"}))
            if base in ("array", "nan_to_num"):
                c = kw.get("copy"); return V({"arr"}, al if c is not None and c.const is not True else E0, self.ckof(path, args, kw))
            if base in NP_FRESH or path in NP_FRESH:
                self.trust.add("numpy: the listed pure functions return fresh memory and write no argument")
                for a in list(args) + list(kw.values()): self.runfn(st, a, node)
                return V(NP_KIND.get(base, ("arr", "num")), E0, self.ckof(path, args, kw)) if base not in NP_TUPLE else V({"tuple"}, tup=tuple(V({"arr", "num"}) for _ in range(NP_TUPLE[base])))
            if base[:1] == "u" or base in ("int8", "int16", "int32", "int64", "float32", "float64", "bool_", "intp", "float_", "int_"): return V({"num", "arr"}, E0, self.ckof(path, args, kw))
        if root in ("scipy", "pandas", "sklearn", "statsmodels", "math", "functools", "itertools", "copy", "numbers"):
            if path in ("pandas.DataFrame", "pandas.Series", "pandas.Index"):
                c = kw.get("copy"); return V({"frame"}, E0 if c is not None and c.const is True else al)
            if path in ("copy.deepcopy", "copy.copy", "sklearn.base.clone"): raise Unsupported(path)
            if path in LIB_FRESH or base in SCIPY_FRESH:
                self.trust.add(f"{root}: the listed pure functions return fresh memory and write no argument")
                for a in list(args) + list(kw.values()): self.runfn(st, a, node)
                return V({"num"} if root == "math" else ("arr", "num", "frame") if root == "pandas" else ("arr", "num"), E0, self.ckof(path, args, kw)) if base not in NP_TUPLE else V({"tuple"}, tup=tuple(V({"arr", "num"}) for _ in range(NP_TUPLE[base])))
            if root == "math": return V({"num"}, E0, self.ckof(path, args, kw))
            if path.split(".")[:2] == ["scipy", "stats"] and base in DISTMETH: return V({"num", "arr"}, E0, self.ckof(path, args, kw))
        if root == "typing" or root == "abc" or root == "__future__": return V(ANY)
        raise Unsupported(f"no ownership contract for {path}")
    def runfn(self, st, v, node):
        """a function handed to a library function: called on arbitrary values"""
        for r in v.refs:
            if r[0] == "fn":
                f = self.fns[r[1]]; k = len(f.node.args.args) - (f.bound is not None) - len(f.node.args.defaults)
                self.loopdepth += 1
                try:
                    s = st.copy(); self.call(s, f, [V({"arr", "num"})] * k, {}, node); t = joinst(st.copy(), s); st.env, st.heap, st.seed = t.env, t.heap, t.seed
                except Raised: pass
                finally: self.loopdepth -= 1
    def libmeth(self, st, cls, name, al, args, kw, node):
        if cls.startswith(GEN):
            if cls != GEN and self.mode & {"seeds", "stale"}: self.fact(f"{self.where()}: random numbers come from a generator made in this call", False, f"line {getattr(node, 'lineno', '?')}: {ast.unparse(node)[:120]}")
            if name == "shuffle": self.write(args[0], node, "shuffle"); return NONE
            return V({"arr", "num"})
        if cls == "matplotlib" or cls.startswith(("matplotlib", "logging", "exception", "file")): return V({"libobj"}, refs={("libobj", cls)})
        if name in ("fit", "partial_fit", "set_params"): return V({"libobj"}, al, refs={("libobj", cls)})
        if name in ("predict", "transform", "score", "fit_transform", "inverse_transform", "get_params", "summary", "cdf", "pdf", "ppf"): return V({"arr", "num"})
        if cls.startswith("sklearn") or cls.startswith("statsmodels"): return V({"arr", "num"})
        raise Unsupported(f"{cls}.{name}")
    def extmeth(self, st, oid, name, args, kw, node):
        """methods inherited from library base classes"""
        cls = self.objcls[oid]; me = V({"obj"}, refs={("obj", oid)})
        if name == "__init__":
            if any(b.endswith("EmpiricalCovariance") for b in self.external_bases(cls)):
                for k, v in kw.items(): self.setattr(st, me, k, v, node)
            return NONE
        if name in ("_validate_data",):
            self.setattr(st, me, "n_features_in_", V({"num"}), node); return V({"arr"}, self.als(args))
        if name == "_set_covariance":
            self.setattr(st, me, "covariance_", V({"arr"}, self.als(args)), node); self.setattr(st, me, "precision_", V({"arr", "none"}), node); return NONE
        if name in ("get_params", "__repr__", "__class__", "score", "mahalanobis", "error_norm", "_get_tags", "_check_n_features", "get_precision", "__sklearn_tags__"): return V(ANY)
        if name in ("fit_transform",):
            f = self.callv(st, self.objattr(st, oid, "fit", node, me), args, kw, node); return self.callv(st, self.objattr(st, oid, "transform", node, me), args[:1], {}, node)
        raise Unsupported(f"inherited method {name}")
    def method(self, st, v, name, args, kw, node):
        """methods of arrays, frames, lists, strings"""
        if any(r[0] == "objdict" for r in v.refs):
            if name != "pop" or args[0].const is NOC or len(v.refs) > 1: raise Unsupported(f"__dict__.{name}")
            for r in v.refs: self.delattr(st, r[1], args[0].const)
            return V(ANY)
        if any(r[0] == "kw" for r in v.refs):
            if name in ("pop", "get", "setdefault", "items", "values", "keys"): return V(ANY, v.al)
            if name in ("update", "clear"): return NONE
            raise Unsupported(f"kwargs.{name}")
        if any(r[0] in ("list", "dict") for r in v.refs):
            if name in ("append", "add"): self.addelem(st, v, args[0]); return NONE
            if name in ("extend", "update"): self.addelem(st, v, self.elem(st, args[0]) or NONE); return NONE
            if name == "insert": self.addelem(st, v, args[1]); return NONE
            if name in ("pop", "get", "setdefault"): return join(self.elem(st, v) or NONE, args[1] if len(args) > 1 else NONE if name == "get" else None)
            if name in ("sort", "reverse", "clear", "remove"): return NONE
            if name in ("values", "copy"): return V({"list"}, v.al, refs=v.refs)
            if name == "items": return self.mklist(st, node, [V({"tuple"}, tup=(V({"str", "num"}), self.elem(st, v) or NONE))], ":items")
            if name == "keys": return V({"list"}, refs=E0)
            if name in ("index", "count"): return V({"num"})
        if "str" in v.kinds and name in ("lower", "upper", "format", "split", "join", "strip", "startswith", "endswith", "replace"): return V({"str", "bool", "list"}, ck=self.ckof("str." + name, [v] + list(args), kw))
        if kw.get("inplace") is not None and kw["inplace"].const is not False:
            self.write(v, node, f".{name}(inplace)"); return NONE
        if "out" in kw and kw["out"].kinds != {"none"}: self.write(kw["out"], node, f".{name}(out=)"); return kw["out"]
        if name in M_MUT: self.write(v, node, f".{name}()"); return V(ANY, v.al)
        if name in M_ALIAS: return V({"arr"}, v.al, self.ckof(name, [v] + list(args), kw))
        if name == "astype":
            c = kw.get("copy"); return V({"arr"}, v.al if c is not None and c.const is not True else E0)
        if name in M_FRESH:
            for a in list(args) + list(kw.values()): self.runfn(st, a, node)
            return V(M_KIND.get(name, ("arr", "num")), E0, self.ckof("." + name, [v] + list(args), kw))
        if name in DISTMETH: return V({"num", "arr"}, E0, self.ckof("." + name, [v] + list(args), kw))
        raise Unsupported(f"no ownership contract for method .{name}()")
    def builtin(self, st, name, args, kw, node):
        if name in ("len", "int", "float", "abs", "round", "sum", "pow", "divmod", "complex", "hash", "ord", "bool", "str", "repr", "format", "chr", "any", "all", "callable", "min", "max", "issubclass", "id"):
            for a in list(args) + list(kw.values()): self.runfn(st, a, node)
            al = self.als(args) if name in ("min", "max", "sum", "abs", "round") and False else E0
            k = {"bool"} if name in ("bool", "any", "all", "callable") else {"str"} if name in ("str", "repr", "format") else {"num", "arr"}
            if name in ("min", "max"): 
                out = None
                for a in args: out = join(out, self.elem(st, a) if len(args) == 1 else a)
                return (out or V(k)).but(ck=self.ckof(name, args, kw), const=NOC)
            if name in ("id", "hash") and "seeds" in self.mode: self.fact(f"{self.where()}: no address or hash is read", name == "hash", ast.unparse(node)[:80])
            if name == "len" and args and args[0].tup is not None: return cval_(len(args[0].tup))
            return V(k, al, self.ckof(name, args, kw))
        if name == "range": return V({"range"}, ck=self.ckof("range", args, kw))
        if name in ("list", "sorted", "tuple", "set", "frozenset", "reversed"):
            for a in kw.values(): self.runelem(st, a, self.elem(st, args[0]), node)
            if not args: return self.mklist(st, node, [], name)
            e = self.elem(st, args[0])
            if args[0].tup is not None and name == "tuple": return args[0]
            return self.mklist(st, node, [e] if e is not None else [], name)
        if name == "enumerate":
            e = self.elem(st, args[0]); return V({"list"}, refs=self.mklist(st, node, [V({"tuple"}, tup=(V({"num"}), e))] if e is not None else [], "en").refs)
        if name == "zip":
            es = [self.elem(st, a) for a in args]
            return self.mklist(st, node, [V({"tuple"}, tup=tuple(es))] if all(e is not None for e in es) else [], "zip")
        if name in ("map", "filter"):
            es = [self.elem(st, a) for a in args[1:]]
            if any(e is None for e in es): return self.mklist(st, node, [], name)
            self.loopdepth += 1
            try: s = st.copy(); r = self.callv(s, args[0], es, {}, node); t = joinst(st.copy(), s); st.env, st.heap, st.seed = t.env, t.heap, t.seed
            finally: self.loopdepth -= 1
            return self.mklist(st, node, [r if name == "map" else es[0]], name)
        if name == "dict":
            t = self.mklist(st, node, list(kw.values()), "dict"); return V({"dict"}, refs={("dict", next(iter(t.refs))[1])})
        if name == "isinstance": return self.isinstance_(st, args, node)
        if name == "hasattr": return self.hasattr_(st, args, node)
        if name == "getattr":
            if args[1].const is NOC: raise Unsupported("getattr with a computed name")
            h = self.hasattr_(st, args[:2], node, quiet=True) if len(args) > 2 else cval_(True)
            if h.const is False: return args[2]
            v = self.getattr(st, args[0], args[1].const, node)
            return v if h.const is True or len(args) < 3 else join(v, args[2])
        if name == "setattr":
            if args[1].const is NOC: raise Unsupported("setattr with a computed name")
            self.setattr(st, args[0], args[1].const, args[2], node); return NONE
        if name == "delattr":
            if args[1].const is NOC or len(args[0].refs) != 1 or next(iter(args[0].refs))[0] != "obj": raise Unsupported("delattr")
            self.delattr(st, next(iter(args[0].refs))[1], args[1].const); return NONE
        if name == "super":
            f = self.stack[-1]
            if f.cls is None: f = next(g for g in reversed(self.stack) if g.cls)
            own = f.owner.rsplit(".", 1)[0]; oid = next(iter(f.bound.refs))[1]
            return V({"super"}, refs={("super", oid, f.cls, own)})
        if name == "print": return NONE
        if name == "open":
            self.fact(f"{self.where()}: files are opened for reading only", len(args) < 2 or args[1].const in ("r", "rb"), ast.unparse(node)[:80]); return V({"libobj"}, refs={("libobj", "file")})
        if name == "type":
            return V({"cls"}, refs={("cls", self.objcls[r[1]]) for r in args[0].refs if r[0] == "obj"}) if args[0].refs else V(ANY, ck=self.ckof("type", args, kw))
        if name == "iter": return args[0]
        if name == "next": return join(self.elem(st, args[0]), args[1] if len(args) > 1 else None) or NONE
        if name == "slice": return V({"slice"}, ck=self.ckof("slice", args, kw))
        if name == "property" or name == "staticmethod": return V(ANY)
        if name[:1].isupper(): return V({"libobj"}, refs={("libobj", "exception")})
        raise Unsupported(f"builtin {name}")
    def runelem(self, st, f, e, node):
        if e is None or not f.refs: return
        self.loopdepth += 1
        try: s = st.copy(); self.callv(s, f, [e], {}, node); t = joinst(st.copy(), s); st.env, st.heap, st.seed = t.env, t.heap, t.seed
        except Raised: pass
        finally: self.loopdepth -= 1
    def isinstance_(self, st, args, node):
        v, c = args; names = []
        cs = list(c.tup) if c.tup is not None else [c]
        robs = [r[1] for x in cs for r in x.refs if r[0] == "cls"]; libs = [r[1].split(".")[-1] for x in cs for r in x.refs if r[0] == "lib"]
        if v.refs and all(r[0] == "obj" for r in v.refs) and not (v.kinds - {"obj"}):
            res = set()
            for r in v.refs:
                anc = {M.name + ":" + k.name for M, k in self.mro(self.objcls[r[1]])}; res.add(any(x in anc for x in robs) or any(b.split(".")[-1] in libs for b in self.external_bases(self.objcls[r[1]])))
            if len(res) == 1: return cval_(res.pop())
            return V({"bool"})
        if v.const is not NOC and libs and not robs:
            t = type(v.const).__name__
            if all(l in ("int", "float", "str", "bool", "NoneType", "tuple", "list", "dict") for l in libs): return cval_(t in libs or (t == "bool" and "int" in libs))
        if not robs and v.kinds and not v.kinds & (ANY | {"unbound"}):
            M = {"int": {"num"}, "float": {"num"}, "str": {"str"}, "ndarray": {"arr"}, "DataFrame": {"frame", "arr"}, "Series": {"frame", "arr"}, "list": {"list"}, "tuple": {"tuple"}, "dict": {"dict"}, "Index": {"frame", "arr"}, "bool": {"bool", "num"}}
            if libs and all(l in M for l in libs):
                pos = set().union(*[M[l] for l in libs])
                if not (v.kinds & pos) and not (v.kinds & {"arr", "frame"} and any(l in ("ndarray", "DataFrame", "Series", "Index") for l in libs)): return cval_(False)
        ck = f"isinstance({v.ck},{sorted(map(str, libs + robs))})" if v.ck else None
        return V({"bool"}, ck=ck)
    def hasattr_(self, st, args, node, quiet=False):
        v, n = args
        if n.const is NOC: return V({"bool"})
        res = set()
        for r in v.refs:
            if r[0] != "obj": res |= {True, False}; continue
            h = st.heap.get(r[1], {})
            if n.const in h:
                status = h[n.const][1]
                if "stale" in status: self.stale(self.objcls[r[1]], n.const, node); res |= {True, False}
                elif ABSENT in status: res |= {True, False}
                else: res.add(True)
            elif self.find(self.objcls[r[1]], n.const) or self.findattr(self.objcls[r[1]], n.const): res.add(True)
            else: res.add(False)
        if not v.refs: return V({"bool"}, ck=f"hasattr({v.ck},{n.const})" if v.ck else None)
        return cval_(res.pop()) if len(res) == 1 else V({"bool"})
    # ---------------------------------------------------------------- expressions
    def truth(self, st, v, node):
        """True, False, or None (undetermined); configuration values fork"""
        if v.const is not NOC:
            try: return bool(v.const)
            except Exception: return None
        if v.tup is not None: return len(v.tup) > 0
        if v.kinds == {"none"}: return False
        if v.refs and v.kinds <= {"obj", "fn", "cls", "libobj", "lib", "meth"} and not any(r[0] == "libobj" for r in v.refs): return True
        if v.ck is not None and not v.refs:
            return self.decide("truth:" + v.ck)
        return None
    def decide(self, k):
        if k in self.dec: return self.dec[k]
        if self.fork and self.level == 1 and not self.forkable and not k.startswith("class:"): return None
        if not self.fork and not k.startswith("class:"): return None
        self.dec[k] = True; self.newdec.append(k); return True
    def known(self, v):
        """a configuration value decided to equal a constant is that constant; decided to differ from it, it is not asked again"""
        p = f"truth:({v.ck} Eq const:"
        for k, t in self.dec.items():
            if t and k.startswith(p):
                try: return v.but(const=ast.literal_eval(k[len(p):-1]))
                except Exception: pass
        return v
    def name(self, st, n):
        f = self.stack[-1]; fid = f.fid
        while True:
            e = st.env.get(fid, {})
            if n in e: return e[n]
            g = next((x for x in reversed(self.stack) if getattr(x, "fid", None) == fid), None) or self.frames.get(fid)
            if g is None or g.clos is None: break
            fid = g.clos
        M = f.mod
        try: return self.modattr(M.name, n)
        except Unsupported: pass
        return V({"lib"}, refs={("lib", "builtins." + n)}, ck=f"lib:{n}")
    frames = {}
    def ev(self, st, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None: raise Unsupported(f"expression {type(e).__name__}: {ast.unparse(e)[:80]}")
        return m(st, e)
    def e_Constant(self, st, e): return cval_(e.value) if not isinstance(e.value, (bytes, type(...))) else V({"other"}, ck=f"const:{e.value!r}")
    def e_Name(self, st, e):
        return self.name(st, e.id)
    def e_Attribute(self, st, e):
        v = self.ev(st, e.value); return self.getattr(st, v, e.attr, e)
    def e_Tuple(self, st, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.e_List(st, e)
        vs = [self.ev(st, x) for x in e.elts]
        return V({"tuple"}, ck=f"({','.join(v.ck for v in vs)})" if all(v.ck for v in vs) else None, tup=tuple(vs), const=tuple(v.const for v in vs) if vs and all(v.const is not NOC for v in vs) else NOC)
    def e_List(self, st, e):
        es = []
        for x in e.elts:
            if isinstance(x, ast.Starred): y = self.elem(st, self.ev(st, x.value)); es += [y] if y is not None else []
            else: es.append(self.ev(st, x))
        r = self.mklist(st, e, es)
        if all(x.ck for x in es) and not any(isinstance(x, ast.Starred) for x in e.elts): r = r.but(ck=f"[{','.join(x.ck for x in es)}]"[:400])
        return r
    e_Set = e_List
    def e_Dict(self, st, e):
        vs = [self.ev(st, x) for x in e.values]; t = self.mklist(st, e, vs, "d"); r = V({"dict"}, refs={("dict", next(iter(t.refs))[1])}); return r
    def e_JoinedStr(self, st, e):
        for x in e.values:
            if isinstance(x, ast.FormattedValue): self.ev(st, x.value)
        return V({"str"})
    def e_BinOp(self, st, e):
        a, b = self.ev(st, e.left), self.ev(st, e.right); op = type(e.op).__name__
        if a.const is not NOC and b.const is not NOC and not self.loopdepth:
            try: return cval_(eval(compile(ast.fix_missing_locations(ast.Expression(ast.BinOp(ast.Constant(a.const), e.op, ast.Constant(b.const)))), "", "eval")))
            except Exception: pass
        if "list" in a.kinds or "list" in b.kinds:
            es = [x for x in (self.elem(st, a) if a.kinds & {"list", "tuple"} else None, self.elem(st, b) if b.kinds & {"list", "tuple"} else None) if x is not None]
            r = self.mklist(st, e, es, "bin")
            if a.kinds - {"list"} or b.kinds - {"list"}: r = join(r, V({"arr"}))
            return r
        k = (a.kinds | b.kinds) - {"const"}
        if a.tup is not None and b.tup is not None and op == "Add": return V({"tuple"}, tup=a.tup + b.tup)
        ks = {"num"} if k <= {"num", "bool"} else {"str"} if k <= {"str", "num", "tuple"} and "str" in k else {"arr"} if (a.kinds == {"arr"} or b.kinds == {"arr"}) else {"frame", "arr"} if "frame" in k else {"arr", "num"}
        return V(ks, ck=f"({a.ck} {op} {b.ck})"[:400] if a.ck and b.ck else None)
    def e_UnaryOp(self, st, e):
        v = self.ev(st, e.operand)
        if isinstance(e.op, ast.Not):
            t = self.truth(st, v, e); return cval_(not t) if t is not None else V({"bool"})
        if v.const is not NOC and isinstance(v.const, (int, float)):
            return cval_(-v.const if isinstance(e.op, ast.USub) else +v.const if isinstance(e.op, ast.UAdd) else ~v.const)
        return V(v.kinds - {"none"} or ANY, ck=f"({type(e.op).__name__} {v.ck})" if v.ck else None)
    def e_BoolOp(self, st, e):
        out = None; isand = isinstance(e.op, ast.And)
        for i, x in enumerate(e.values):
            if out is None: v = self.ev(st, x)
            else:
                s = st.copy()
                try: v = self.ev(s, x); t = joinst(st.copy(), s); st.env, st.heap, st.seed = t.env, t.heap, t.seed
                except Raised: return out
            t = self.truth(st, v, x)
            if t is (not isand): return v if out is None else join(out, v)
            if t is isand and i < len(e.values) - 1: continue
            out = v if out is None else join(out, v)
            if out is not v: out = out.but(const=NOC, ck=None)
        return out
    def e_Compare(self, st, e):
        vs = [self.ev(st, e.left)] + [self.ev(st, x) for x in e.comparators]; ops = [type(o).__name__ for o in e.ops]
        if len(ops) == 1:
            a, b = vs
            if ops[0] in ("Is", "IsNot"):
                r = None
                if b.const is None:
                    if "none" not in a.kinds and not a.kinds & (ANY | {"unbound"}): r = False
                    elif a.kinds == {"none"}: r = True
                    elif a.ck: r = self.decide(f"isnone:{a.ck}")
                if r is None:
                    return V({"bool"}, ck=f"({a.ck} {ops[0]} {b.ck})" if a.ck and b.ck else None)
                return cval_(r if ops[0] == "Is" else not r)
            for i in (0, 1):
                if vs[i].const is NOC and vs[i].ck and not vs[i].refs: vs[i] = self.known(vs[i])
            a, b = vs
            if ops[0] in ("Eq", "NotEq") and a.const is NOC and isinstance(b.const, str) and a.ck and not a.refs and self.fork and self.decide(f"truth:({a.ck} Eq {b.ck})") is not None:
                return cval_(self.decide(f"truth:({a.ck} Eq {b.ck})") == (ops[0] == "Eq"))
            if ops[0] in ("In", "NotIn") and isinstance(e.comparators[0], (ast.List, ast.Tuple, ast.Set)) and all(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in e.comparators[0].elts):
                cs = [x.value for x in e.comparators[0].elts]
                if a.const is not NOC: return cval_((a.const in cs) == (ops[0] == "In"))
                if a.ck and not a.refs and self.fork:
                    rs = [self.decide(f"truth:({a.ck} Eq const:{cs[0]!r})")]
                    for c in cs[1:]:
                        if rs[-1]: break
                        rs.append(self.decide(f"truth:({a.ck} Eq const:{c!r})"))
                    if rs[-1]: return cval_(ops[0] == "In")
                    if None not in rs: return cval_(ops[0] == "NotIn")
            if ops[0] in ("Eq", "NotEq") and a.const is not NOC and b.const is not NOC: return cval_((a.const == b.const) == (ops[0] == "Eq"))
            if ops[0] in ("In", "NotIn") and a.const is not NOC and b.const is not NOC:
                try: return cval_((a.const in b.const) == (ops[0] == "In"))
                except TypeError: pass
            if ops[0] in ("Lt", "Gt", "LtE", "GtE") and isinstance(a.const, (int, float)) and isinstance(b.const, (int, float)): return cval_(eval(f"a {dict(Lt='<', Gt='>', LtE='<=', GtE='>=')[ops[0]]} b", dict(a=a.const, b=b.const)))
        arr = any(v.kinds & {"arr", "frame"} for v in vs) and not set(ops) & {"In", "NotIn", "Is", "IsNot"}
        pure = any(v.kinds in ({"arr"}, {"frame"}, {"arr", "frame"}) for v in vs) and arr
        return V({"arr"} if pure else {"arr", "bool"} if arr else {"bool"}, ck=f"({' '.join(x for v, o in zip(vs, ops + ['']) for x in (v.ck, o))})"[:400] if all(v.ck for v in vs) else None)
    def e_IfExp(self, st, e):
        t = self.truth(st, self.ev(st, e.test), e)
        if t is not None: 
            s1 = st.copy()
            if not t: return self.ev(st, e.orelse)
            return self.ev(st, e.body)
        s1, s2 = st.copy(), st.copy(); a = b = None; r1 = r2 = None
        self.narrow(s1, e.test, True); self.narrow(s2, e.test, False)
        try: a = self.ev(s1, e.body); r1 = s1
        except Raised: pass
        try: b = self.ev(s2, e.orelse); r2 = s2
        except Raised: pass
        s = joinst(r1, r2)
        if s is None: raise Raised()
        st.env, st.heap, st.seed = s.env, s.heap, s.seed; r = join(a, b)
        return r.but(ck=None) if a is not None and b is not None and a != b else r
    def e_Lambda(self, st, e): return self.closure(e)
    def closure(self, node):
        f = self.stack[-1]; self.frames[f.fid] = f
        nm = getattr(node, "name", "<lambda>")
        return self.fnv(Fn(node, f.mod, f.cls, None, f.fid, owner=f"{f.owner}.{nm}"))
    def e_Starred(self, st, e): return self.ev(st, e.value)
    def e_NamedExpr(self, st, e):
        v = self.ev(st, e.value); self.assign(st, e.target, v, e); return v
    def e_Slice(self, st, e):
        for x in (e.lower, e.upper, e.step):
            if x is not None: self.ev(st, x)
        return V({"slice"})
    def index_kind(self, st, s):
        """'basic' (a view), 'adv' (a copy) or 'any'"""
        if isinstance(s, ast.Tuple): 
            ks = [self.index_kind(st, x) for x in s.elts]
            return "adv" if "adv" in ks else "any" if "any" in ks else "basic"
        v = self.ev(st, s)
        if isinstance(s, ast.Slice): return "basic"
        if v.kinds & {"list"} and v.kinds <= {"list"}: return "adv"
        if v.kinds == {"arr"}: return "adv"
        if v.kinds <= {"num", "none", "slice", "str", "range", "bool"}: return "basic"
        return "any"
    def e_Subscript(self, st, e):
        v = self.ev(st, e.value)
        ik = self.index_kind(st, e.slice)
        iv = None if isinstance(e.slice, (ast.Slice, ast.Tuple)) else self.ev(st, e.slice)
        out = None
        if v.tup is not None:
            if isinstance(e.slice, ast.Slice):
                lo = self.ev(st, e.slice.lower).const if e.slice.lower else None; hi = self.ev(st, e.slice.upper).const if e.slice.upper else None
                if lo is not NOC and hi is not NOC: return V({"tuple"}, tup=v.tup[lo:hi])
            if iv is not None and isinstance(iv.const, int) and -len(v.tup) <= iv.const < len(v.tup): return v.tup[iv.const]
            for t in v.tup: out = join(out, t)
            return out or V(ANY)
        if any(r[0] in ("list", "dict") for r in v.refs):
            el = self.elem(st, v)
            if isinstance(e.slice, ast.Slice): out = V({"list"}, v.al, refs={r for r in v.refs if r[0] == "list"})
            else: out = el if el is not None else None
            if not (v.kinds - {"list", "dict", "unbound"}):
                if out is None: raise Raised()
                return out
        ck = f"{v.ck}[{iv.ck}]" if v.ck and iv is not None and iv.ck else f"{v.ck}[{ast.unparse(e.slice)}]" if v.ck and ik == "basic" and isinstance(e.slice, ast.Slice) and all(isinstance(x, ast.Constant) or x is None for x in (e.slice.lower, e.slice.upper, e.slice.step)) else None
        if "tuple" in v.kinds and v.kinds <= {"tuple", "unbound"} and not v.refs: return join(out, V({"num", "arr"}, v.al, ck))
        if any(r[0] == "lib" for r in v.refs): return V(ANY)           # typing constructs
        if any(r[0] == "libobj" and r[1].startswith("matplotlib") for r in v.refs): return V({"libobj"}, refs={r for r in v.refs if r[0] == "libobj"})
        if any(r[0] == "libobj" for r in v.refs): out = join(out, V({"libobj", "arr"}, v.al, refs={r for r in v.refs if r[0] == "libobj"})); return out
        al = v.al if ik != "adv" else E0
        k = {"str"} if v.kinds == {"str"} else {"arr"} if isinstance(e.slice, ast.Slice) or ik == "adv" or (isinstance(e.slice, ast.Tuple) and any(isinstance(x, ast.Slice) for x in e.slice.elts)) else {"arr", "num"}
        if "const" in v.kinds: k = ANY
        if "frame" in v.kinds or "locator" in v.kinds: k = set(k) | {"frame"}
        return join(out, V(k, al, ck))
    def comp(self, st, e, elts):
        st0 = st; fid = self.stack[-1].fid
        def gen(s, gens):
            if not gens:
                return [self.ev(s, x) for x in elts]
            g = gens[0]; it = self.ev(s, g.iter); el = self.elem(s, it)
            if el is None: return None
            res = None; self.loopdepth += 1
            try:
                for _ in range(6):
                    b = s.copy(); self.assign(b, g.target, el, e)
                    try:
                        for c in g.ifs:
                            if self.truth(b, self.ev(b, c), c) is False: raise Raised()
                            self.narrow(b, c, True)
                        r = gen(b, gens[1:])
                    except Raised: r = None; b = s
                    if r is not None: res = r if res is None else [join(x, y) for x, y in zip(res, r)]
                    t = joinst(s.copy(), b)
                    if t.same(s): break
                    s.env, s.heap, s.seed = t.env, t.heap, t.seed
                else: raise Unsupported("comprehension does not stabilise")
            finally: self.loopdepth -= 1
            return res
        saved = dict(st.env[fid]); r = gen(st, e.generators)
        new = st.env[fid]; tg = {n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        for n in tg:
            if n in saved: new[n] = saved[n]
            else: new.pop(n, None)
        return r
    def e_ListComp(self, st, e):
        r = self.comp(st, e, [e.elt]); return self.mklist(st, e, r or [], "comp")
    e_SetComp = e_ListComp; e_GeneratorExp = e_ListComp
    def e_DictComp(self, st, e):
        r = self.comp(st, e, [e.key, e.value]); t = self.mklist(st, e, r[1:] if r else [], "dcomp"); return V({"dict"}, refs={("dict", next(iter(t.refs))[1])})
    def e_Call(self, st, e):
        fv = self.ev(st, e.func); args = []; kw = {}
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.ev(st, x.value)
                if v.tup is not None: args += list(v.tup)
                else:
                    y = self.elem(st, v); libs = all(r[0] in ("lib", "meth", "libmeth") for r in fv.refs)
                    if y is not None and libs: args.append(y)
                    elif y is not None: raise Unsupported("*args of unknown length")
            else: args.append(self.ev(st, x))
        for k in e.keywords:
            if k.arg is None:
                v = self.ev(st, k.value)
                if v.ck == "const:{}": continue
                r = next((r for r in v.refs if r[0] == "kw"), None)
                if r is not None:
                    d = self.kwd.get((self.stack[-1].fid, dotted(k.value)), {}); kw.update(d); continue
                if all(x[0] in ("lib", "libmeth", "meth") for x in fv.refs): continue
                raise Unsupported("**kwargs of unknown content")
            else: kw[k.arg] = self.ev(st, k.value)
        return self.callv(st, fv, args, kw, e)
    # ---------------------------------------------------------------- assignment
    def assign(self, st, t, v, node):
        if isinstance(t, ast.Name): st.env[self.stack[-1].fid][t.id] = v; return
        if isinstance(t, ast.Attribute): self.setattr(st, self.ev(st, t.value), t.attr, v, node); return
        if isinstance(t, (ast.Tuple, ast.List)):
            if v.tup is not None and len(v.tup) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts):
                for x, y in zip(t.elts, v.tup): self.assign(st, x, y, node)
                return
            el = self.elem(st, v)
            if el is None: raise Raised()
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred): self.assign(st, x.value, self.mklist(st, x, [el]), node)
                else: self.assign(st, x, el.but(ck=f"{v.ck}[{i}]" if v.ck else None), node)
            return
        if isinstance(t, ast.Subscript):
            c = self.ev(st, t.value); self.index_kind(st, t.slice)
            if any(r[0] in ("list", "dict") for r in c.refs): self.addelem(st, c, v)
            if any(r[0] == "kw" for r in c.refs): return
            if c.kinds - {"list", "dict"} or not c.refs: self.write(c, node, "assignment to an element")
            return
        if isinstance(t, ast.Starred): return self.assign(st, t.value, v, node)
        raise Unsupported(f"assignment to {ast.unparse(t)[:60]}")
    # ---------------------------------------------------------------- statements
    def block(self, st, stmts):
        outs = []
        for s in stmts:
            if st is None: break
            try: st, o = self.stmt(st, s)
            except Raised: 
                outs.append(("raise", st, None)); st = None; break
            outs += o
        return st, outs
    def stmt(self, st, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None: raise Unsupported(f"statement {type(s).__name__}")
        return m(st, s)
    def s_Expr(self, st, s):
        if not isinstance(s.value, ast.Constant): self.ev(st, s.value)
        return st, []
    def s_Pass(self, st, s): return st, []
    def s_Import(self, st, s):
        for a in s.names: st.env[self.stack[-1].fid][a.asname or a.name.split(".")[0]] = self.libattr(a.name if a.asname else a.name.split(".")[0])
        return st, []
    def s_ImportFrom(self, st, s):
        for a in s.names: st.env[self.stack[-1].fid][a.asname or a.name] = self.modattr(self.stack[-1].mod.name, a.asname or a.name)
        return st, []
    def s_Global(self, st, s): raise Unsupported("global statement")
    s_Nonlocal = s_Global
    def s_FunctionDef(self, st, s):
        st.env[self.stack[-1].fid][s.name] = self.closure(s); return st, []
    def s_Assert(self, st, s): self.ev(st, s.test); return st, []
    def s_Delete(self, st, s):
        for t in s.targets:
            if isinstance(t, ast.Name): st.env[self.stack[-1].fid].pop(t.id, None)
            elif isinstance(t, ast.Subscript): self.write(self.ev(st, t.value), s, "del")
            elif isinstance(t, ast.Attribute):
                v = self.ev(st, t.value)
                if len(v.refs) != 1 or next(iter(v.refs))[0] != "obj": raise Unsupported("del of an attribute")
                self.delattr(st, next(iter(v.refs))[1], t.attr)
            else: raise Unsupported("del")
        return st, []
    def s_Assign(self, st, s):
        v = self.ev(st, s.value)
        for t in s.targets: self.assign(st, t, v, s)
        return st, []
    def s_AnnAssign(self, st, s):
        if s.value is not None: self.assign(st, s.target, self.ev(st, s.value), s)
        return st, []
    def s_AugAssign(self, st, s):
        t = s.target; load_ = ast.copy_location(type(t)(**{**{f: getattr(t, f) for f in t._fields}, "ctx": ast.Load()}), t)
        old = self.ev(st, load_); x = self.ev(st, s.value)
        if old.refs and any(r[0] == "list" for r in old.refs):
            y = self.elem(st, x)
            if y is not None: self.addelem(st, old, y)
            return st, []
        if isinstance(t, ast.Subscript):
            c = self.ev(st, t.value); self.write(c, s, "in-place operation on an element"); return st, []
        inplace = bool(old.kinds & (ANY | {"arr", "frame", "locator", "other"}))
        if inplace:
            self.write(old, s, f"in-place operation on {ast.unparse(t)}")
            new = join(old, V({"arr", "num"})).but(const=NOC, ck=None)
        else: new = self.e_BinOp(st, ast.copy_location(ast.BinOp(load_, s.op, s.value), s))
        self.assign(st, t, new, s); return st, []
    def s_Return(self, st, s):
        v = self.ev(st, s.value) if s.value is not None else NONE
        return None, [("return", st, v)]
    def s_Raise(self, st, s):
        if s.exc is not None: self.ev(st, s.exc)
        return None, [("raise", st, None)]
    def s_Break(self, st, s): return None, [("break", st, None)]
    def s_Continue(self, st, s): return None, [("continue", st, None)]
    def narrow(self, st, test, val):
        """what a test tells about a local variable"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not): return self.narrow(st, test.operand, not val)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) == val:
                for x in test.values: self.narrow(st, x, val)
            return
        env = st.env[self.stack[-1].fid]
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None and isinstance(test.left, ast.Name) and test.left.id in env:
            none = isinstance(test.ops[0], (ast.Is, ast.Eq)) == val; v = env[test.left.id]
            env[test.left.id] = NONE if none else v.but(kinds=v.kinds - {"none"} or ANY)
        if isinstance(test, ast.Call) and dotted(test.func) == "isinstance" and isinstance(test.args[0], ast.Name) and test.args[0].id in env:
            v = env[test.args[0].id]; c = ast.unparse(test.args[1])
            if val and c in ("np.ndarray", "numpy.ndarray"): env[test.args[0].id] = v.but(kinds=frozenset({"arr"}))
            if val and c in ("tuple",) and v.tup is None: env[test.args[0].id] = v.but(kinds=frozenset({"tuple"}))
    def s_If(self, st, s):
        old = self.forkable
        if id(s) not in self.F.relevant: self.F.relevant[id(s)] = any(isinstance(x, ast.Return) or isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) for b in s.body + s.orelse for x in ast.walk(b))
        self.forkable = self.F.relevant[id(s)]
        try: v = self.ev(st, s.test); t = self.truth(st, v, s.test)
        finally: self.forkable = old
        if t is None and self.split and self.fork and self.depth <= 3 and not self.loopdepth and any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) for b in s.body + s.orelse for x in ast.walk(b)): t = self.decide(f"path:{self.where()}:{s.lineno}:{s.col_offset}")
        if t is not None:
            self.narrow(st, s.test, t); return self.block(st, s.body if t else s.orelse)
        a, b = st.copy(), st; self.narrow(a, s.test, True); self.narrow(b, s.test, False)
        x, o1 = self.block(a, s.body); y, o2 = self.block(b, s.orelse)
        return joinst(x, y), o1 + o2
    def loop(self, st, body, head, orelse):
        """head(st) -> (state entering the body or None, state leaving without entering or None)"""
        outs = []; exits = None; self.loopdepth += 1
        try:
            for it in range(30):
                b, out = head(st.copy()); outs = []; brk = None; nxt = None
                if b is not None:
                    nxt, o = self.block(b, body)
                    for kind, s2, v in o:
                        if kind == "break": brk = joinst(brk, s2)
                        elif kind == "continue": nxt = joinst(nxt, s2)
                        else: outs.append((kind, s2, v))
                exits = (out, brk)
                if nxt is None: break
                t = joinst(st.copy(), nxt)
                if t.same(st): break
                st = t
            else: raise Unsupported("loop does not stabilise")
        finally: self.loopdepth -= 1
        out, brk = exits
        if orelse and out is not None:
            out, o = self.block(out, orelse); outs += o
        return joinst(out, brk), outs
    def s_For(self, st, s):
        it = self.ev(st, s.iter)
        if it.tup is not None and 0 < len(it.tup) <= 8 and all(t.const is not NOC or t.tup is not None for t in it.tup): return self.unrolled(st, s, it.tup)
        once = self.nonempty(st, it)
        first = [True]
        def head(x):
            el = self.elem(x, it)
            out = x.copy()
            if el is None: return None, out
            self.assign(x, s.target, el, s); return x, out
        if once:
            # at least one iteration: the state before the first one does not leave the loop
            b = st.copy(); self.assign(b, s.target, self.elem(b, it), s); self.loopdepth += 1
            try: nxt, o = self.block(b, s.body)
            finally: self.loopdepth -= 1
            brk = None; outs = []
            for kind, s2, v in o:
                if kind == "break": brk = joinst(brk, s2)
                elif kind == "continue": nxt = joinst(nxt, s2)
                else: outs.append((kind, s2, v))
            if nxt is None: return brk, outs
            e, o2 = self.loop(nxt, s.body, head, s.orelse); return joinst(e, brk), outs + o2
        return self.loop(st, s.body, head, s.orelse)
    def unrolled(self, st, s, items):
        outs = []; brk = None
        for el in items:
            if st is None: break
            self.assign(st, s.target, el, s); st, o = self.block(st, s.body)
            for kind, s2, v in o:
                if kind == "break": brk = joinst(brk, s2)
                elif kind == "continue": st = joinst(st, s2)
                else: outs.append((kind, s2, v))
        if st is not None and s.orelse: st, o = self.block(st, s.orelse); outs += o
        return joinst(st, brk), outs
    def nonempty(self, st, v): return (v.tup is not None and len(v.tup) > 0) or v.ck is not None and v.ck.startswith("[") and v.kinds == {"list"}
    def s_While(self, st, s):
        def head(x):
            v = self.ev(x, s.test); t = self.truth(x, v, s.test)
            a = x.copy(); self.narrow(a, s.test, True); b = x.copy(); self.narrow(b, s.test, False)
            return (a if t is not False else None), (b if t is not True else None)
        return self.loop(st, s.body, head, s.orelse)
    def s_With(self, st, s):
        for i in s.items:
            v = self.ev(st, i.context_expr)
            if i.optional_vars is not None: self.assign(st, i.optional_vars, v, s)
        return self.block(st, s.body)
    def s_Try(self, st, s):
        entry = st.copy(); self.tries.append(None); x, o = self.block(st, s.body); raised = self.tries.pop(); outs = []
        for kind, s2, v in o:
            if kind == "raise": raised = joinst(raised, s2)
            else: outs.append((kind, s2, v))
        h = joinst(joinst(entry, raised), x.copy() if x is not None else None); res = x
        if s.orelse and x is not None: res, o2 = self.block(x, s.orelse); outs += o2
        for hd in s.handlers:
            b = h.copy()
            if hd.name: b.env[self.stack[-1].fid][hd.name] = V({"libobj"}, refs={("libobj", "exception")})
            y, o2 = self.block(b, hd.body); outs += o2; res = joinst(res, y)
        if s.finalbody:
            if res is not None: res, o2 = self.block(res, s.finalbody); outs += o2
        return res, outs
    # ---------------------------------------------------------------- units
    def subject(self, st, cls, tag, alt=(), seedok=(), prior=True):
        """an object of class cls: attributes set from constructor parameters are configuration (common to all calls), the others are left over from earlier calls"""
        self.objcls[tag] = cls; st.heap[tag] = {}; o = V({"obj"}, refs={("obj", tag)}); self.prior = prior
        f = self.find(cls, "__init__"); params = {}
        if f is not None:
            M, c, n = f; a = n.args; pos = [x for x in a.posonlyargs + a.args][1:]; dfl = dict(zip([x.arg for x in pos][len(pos) - len(a.defaults):] if a.defaults else [], a.defaults)); dfl.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
            for x in pos + a.kwonlyargs: params[x.arg] = self.param(st, M, tag, x, dfl.get(x.arg), seedok)
            self.tracked.discard(tag)
            self.call(st, Fn(n, M, cls, o, owner=f"{M.name}:{c.name}.__init__"), [], params, n)
        self.tracked.add(tag); assigned = set(); st.seed = "no"
        for M, c in self.mro(cls):
            for fn in c.body:
                if isinstance(fn, ast.FunctionDef) and self.iscached(fn): assigned.add(fn.name)
                if isinstance(fn, ast.FunctionDef) and fn.name != "__init__":
                    for x in ast.walk(fn):
                        if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name) and fn.args.args and x.value.id == fn.args.args[0].arg: assigned.add(x.attr)
        assigned |= {"n_features_in_", "covariance_", "precision_"} if any(b.endswith("EmpiricalCovariance") for b in self.external_bases(cls)) else set()
        h = st.heap[tag]
        for a, (v, s) in list(h.items()):
            if any(r[0] == "libobj" and r[1] == GEN for r in v.refs): v = v.but(refs=frozenset({("libobj", GEN + ".kept")}))
            conf = a in params or any(p in (v.ck or "") for p in [f"cfg:{tag}."]) or any(r[0] == "obj" and r[1] in self.tracked for r in v.refs) or a not in assigned
            h[a] = (v, frozenset({"cfg"} if conf else {"stale"} if prior else {"own"}))
            if not conf and prior: h[a] = (V(ANY), frozenset({"stale"}))
        if prior:
            for a in assigned - set(h): h[a] = (V(ANY), frozenset({"stale"}))
        self.latent = getattr(self, "latent", {}); self.latent[tag] = assigned
        return o
    latent = {}; attrwrites = None
    def param(self, st, M, tag, x, dflt, seedok):
        nm = x.arg; ck = f"cfg:{tag}.{nm}"; ann = ast.unparse(x.annotation) if x.annotation is not None else ""
        if nm in seedok: return V({"num"}, ck=ck)
        kinds = set()
        if dflt is not None:
            d = self.modexpr(M, dflt)
            if any(r[0] == "obj" for r in d.refs) or any(r[0] == "cls" for r in d.refs):
                return self.estimator(st, M, tag, nm, ann, d, seedok)
            if any(r[0] in ("lib", "fn", "userfn") for r in d.refs): return V({"fn"}, refs={("userfn", nm)}, ck=None)
            kinds |= d.kinds - {"const"}
            if "const" in d.kinds: return V({"const"}, {f"the configuration {nm}"}, ck=ck)
        if any(w in ann for w in ("Axes", "Figure", "Colormap")): return V({"libobj", "none"} if "None" in ann or dflt is not None else {"libobj"}, refs={("libobj", "matplotlib")})
        for t, k in (("float", "num"), ("int", "num"), ("str", "str"), ("bool", "bool"), ("None", "none"), ("Literal", "str"), ("Optional", "none"), ("tuple", "tuple")):
            if t in ann: kinds.add(k)
        for w in set(ann.replace("|", " ").replace("[", " ").replace("]", " ").split()):
            if w in M.imports or w in M.classes:
                try: v = self.modattr(M.name, w)
                except Unsupported: continue
                if any(r[0] == "cls" for r in v.refs):
                    e = self.estimator(st, M, tag, nm, ann, V({"cls"}, refs=v.refs), seedok); 
                    if "none" in kinds: e = e.but(kinds=e.kinds | {"none"}, ck=None)
                    return e
        return V(kinds or ANY, {f"the configuration {nm}"} if not kinds or kinds & {"arr", "list", "other", "frame"} else E0, ck=ck)
    def estimator(self, st, M, tag, nm, ann, d, seedok=()):
        """an estimator object in the configuration: any concrete class with the annotated base"""
        cands = set()
        for w in set(ann.replace("|", " ").replace("[", " ").replace("]", " ").split()):
            if w in M.imports or w in M.classes:
                try: v = self.modattr(M.name, w)
                except Unsupported: continue
                for r in v.refs:
                    if r[0] == "cls":
                        subs = self.subclasses(r[1]); cands |= set(subs or [r[1]])
        for r in d.refs:
            if r[0] == "obj": cands.add(self.objcls[r[1]])
        up = [self.objcls[t] for t in self.objcls if tag == t or tag.startswith(t + ".")]
        if any(c in cands for c in up): self.trust.add("an estimator nested in one of its own class: by induction on the nesting")
        cands = [c for c in sorted(cands) if not self.abstract(c) and c not in up]
        # one class at a time
        pick = cands[-1]
        for c in cands[:-1]:
            if self.decide(f"class:{tag}.{nm}={c}"): pick = c; break
        sub = f"{tag}.{nm}"
        if sub not in self.objcls: self.subject(st, pick, sub, seedok=seedok, prior=self.prior)
        return V({"obj"}, refs={("obj", sub)})
    def abstract(self, cls):
        seen = set()
        for M, c in self.mro(cls):
            for n in c.body:
                if isinstance(n, ast.FunctionDef):
                    if n.name in seen: continue
                    seen.add(n.name)
                    if any((dotted(d) or "").endswith("abstractmethod") for d in n.decorator_list): return True
        if any(b.endswith("Protocol") for b in self.external_bases(cls)): return True
        return False

def explore(make, run, limit=600, secs=400):
    """run once per assignment of truth values to the configuration expressions met"""
    import time, random
    rnd = random.Random(0); todo = [{}]; n = 0; outs = []; t0 = time.time()
    while todo:
        d = todo.pop(rnd.randrange(len(todo))); n += 1
        if outs and outs[-1].level == 2 and outs[-1].fork and time.time() - t0 > 20 and any(not ok for I in outs for ok, _ in I.facts.values()): return outs     # a failure on a path told apart from all others
        if n > limit or time.time() - t0 > secs: raise Unsupported(f"more than {n - 1} configurations")
        I = make(); I.dec = dict(d); I.newdec = []; I.frames = {}; I.latent = {}; I.attrwrites = set(); I.kwd = {}
        I.done = False
        try: run(I); I.done = True
        except Raised: pass
        outs.append(I)
        order = list(d) + I.newdec
        for i, k in enumerate(I.newdec):
            nd = dict(d); nd.update({x: True for x in I.newdec[:i]}); nd[k] = False; todo.append(nd)
    return outs

def levels(make, run, secs=120):
    """first without telling configurations apart, then one by one where a branch sets attributes or returns, then all of them, splitting also on
    the data-dependent branches that set attributes"""
    for lv in range(3):
        def mk():
            I = make(); I.fork = lv > 0; I.split = lv > 1; I.unsup = []; I.level = lv; return I
        try: Is = explore(mk, run, secs=secs)
        except Unsupported:
            if lv == 2: raise
            continue
        if lv == 2 or all(ok for I in Is for ok, _ in I.facts.values()) and not any(I.unsup for I in Is): return Is

S = lambda s: frozenset(s.split())
VIEWPROPS = S("T values real imag flat base array ravel")
PROPS = S("shape size ndim dtype columns index dtypes name kind nbytes itemsize empty names str flags strides")
LIBVALUES = {"numpy.pi": {"num"}, "numpy.e": {"num"}, "numpy.nan": {"num"}, "numpy.inf": {"num"}, "numpy.newaxis": {"none"}, "math.pi": {"num"}, "math.inf": {"num"}, "math.nan": {"num"}, "numpy.number": {"other"}, "logging.INFO": {"num"}, "logging.WARNING": {"num"}, "logging.DEBUG": {"num"}, "logging.ERROR": {"num"}, "numpy.ndarray": {"other"}}
del LIBVALUES["numpy.ndarray"]
NP_MUT = dict(put=0, place=0, copyto=0, fill_diagonal=0, putmask=0, put_along_axis=0)
NP_ALIAS = S("asarray asanyarray ascontiguousarray asfortranarray atleast_1d atleast_2d atleast_3d ravel reshape squeeze transpose swapaxes moveaxis expand_dims broadcast_to broadcast_arrays array_split split hsplit vsplit flip fliplr flipud rot90 real imag diagonal require view diag")
NP_FRESH = S("""mean median std var sum nansum nanmean nanmedian nanstd nanvar min max amin amax nanmin nanmax prod cumsum cumprod nancumsum any all isnan isfinite isinf isclose allclose array_equal abs absolute fabs sqrt square power exp expm1 log log1p log2 log10 sign sin cos tan tanh arctan sinh cosh
 where argsort sort argmin argmax nanargmin nanargmax argwhere nonzero flatnonzero searchsorted partition argpartition unique bincount digitize histogram quantile percentile nanquantile nanpercentile count_nonzero
 zeros ones full empty eye identity arange linspace logspace zeros_like ones_like full_like empty_like tile repeat concatenate hstack vstack column_stack row_stack stack dstack append delete insert meshgrid
 dot matmul outer inner einsum kron cross tensordot vdot trace cov corrcoef clip maximum minimum fmax fmin add subtract multiply divide true_divide floor_divide mod remainder floor ceil round around rint trunc copy diff ediff1d ix_ triu tril triu_indices tril_indices triu_indices_from tril_indices_from indices mask_indices isin in1d setdiff1d intersect1d union1d logical_and logical_or logical_not logical_xor bitwise_and bitwise_or invert
 take take_along_axis compress choose select nan_to_num interp sign cbrt hypot roll ptp average apply_along_axis vectorize errstate iscomplexobj isreal isscalar ndim shape size finfo iinfo isrealobj lexsort diag_indices diag_indices_from unravel_index ravel_multi_index polyfit polyval result_type issubdtype can_cast float_power gradient convolve correlate greater less greater_equal less_equal equal not_equal negative reciprocal exp2 heaviside block fromiter array_repr
 numpy.linalg.norm numpy.linalg.inv numpy.linalg.pinv numpy.linalg.det numpy.linalg.slogdet numpy.linalg.eigh numpy.linalg.eig numpy.linalg.eigvalsh numpy.linalg.eigvals numpy.linalg.svd numpy.linalg.qr numpy.linalg.solve numpy.linalg.lstsq numpy.linalg.cholesky numpy.linalg.matrix_rank numpy.linalg.multi_dot numpy.linalg.matrix_power numpy.linalg.cond""")
NP_FRESH |= {"seterr", "atleast_1d_copy"}
NP_TUPLE = dict(eigh=2, eig=2, svd=3, lstsq=4, slogdet=2, qr=2)
NP_KIND = {}
for _n in S("zeros ones full empty eye identity arange linspace zeros_like ones_like full_like empty_like tile repeat concatenate hstack vstack column_stack stack append delete insert argsort cov corrcoef unique copy array diag outer isin ix_ flatnonzero argwhere tril triu nonzero"): NP_KIND[_n] = ("arr",)
NP_KIND["nonzero"] = ("tuple",)
for _n in ("isscalar", "allclose", "array_equal", "issubdtype"): NP_KIND[_n] = ("bool",)
LIB_FRESH = S("pandas.to_numeric pandas.isna pandas.isnull pandas.notna pandas.concat pandas.get_dummies pandas.unique pandas.cut pandas.qcut pandas.read_csv pandas.read_json pandas.api.types.is_numeric_dtype functools.partial functools.reduce itertools.combinations itertools.product itertools.chain sklearn.utils.validation.check_is_fitted sklearn.utils.check_array sklearn.utils.validation.check_array statsmodels.api.add_constant statsmodels.tools.add_constant")
LIB_FRESH -= {"sklearn.utils.check_array", "sklearn.utils.validation.check_array"}
SCIPY_FRESH = S("median_abs_deviation rankdata kendalltau spearmanr pearsonr pinvh sqrtm inv eigh svd solve minimize_scalar minimize root_scalar brentq medcouple iqr trim_mean cdist pdist squareform mahalanobis null_space orth det pinv lstsq cholesky logsumexp expit gammaln gamma_function is_numeric_dtype add_constant solve_triangular norm_ppf")
DISTMETH = S("ppf cdf pdf sf isf rvs_none logpdf mean_none")
LIBCLASSES = S("sklearn.linear_model.LinearRegression sklearn.decomposition.PCA statsmodels.api.WLS statsmodels.api.OLS statsmodels.regression.linear_model.WLS")
LIBOBJ = {}
for _c, _d in (("sklearn.linear_model.LinearRegression", "coef_ intercept_"), ("sklearn.decomposition.PCA", "components_ explained_variance_ explained_variance_ratio_ mean_ n_components_"), ("statsmodels.api.WLS", "params resid fittedvalues scale"), ("statsmodels.api.OLS", "params resid fittedvalues scale"), ("matplotlib", "")): LIBOBJ[_c] = dict(data=S(_d))
M_MUT = S("sort fill put resize itemset partition setflags byteswap_inplace pop insert update __setitem__")
M_ALIAS = S("reshape ravel transpose squeeze swapaxes view diagonal to_numpy iterrows itertuples items groupby set_axis rename rename_axis head tail xs get pipe real")
M_FRESH = S("""mean median std var sum min max prod cumsum cumprod any all argsort argmin argmax round clip copy flatten dot repeat nonzero trace tolist item take compress searchsorted conj ptp tobytes
 replace fillna isna isnull notna notnull dropna drop apply applymap map astype nunique unique value_counts sort_values sort_index reset_index set_index reindex quantile abs corr cov describe idxmin idxmax isin rank mode diff shift where mask sample_none join merge concat equals select_dtypes select assign duplicated drop_duplicates to_list to_dict keys lower upper format startswith endswith count add sub mul div pow mad kurt skew agg aggregate transform melt pivot stack unstack sem nlargest nsmallest between to_frame difference union intersection get_loc get_indexer ffill bfill interpolate infer_objects convert_dtypes""")
M_KIND = {_n: ("arr",) for _n in S("argsort flatten copy repeat isna isnull notna notnull")}
M_KIND.update({_n: ("frame", "arr", "num") for _n in S("replace fillna drop apply reindex select_dtypes dropna")}); M_KIND["tolist"] = ("list",); M_KIND["to_list"] = ("list",); M_KIND["all"] = M_KIND["any"] = ("bool", "arr")
M_KIND["nonzero"] = ("tuple",)

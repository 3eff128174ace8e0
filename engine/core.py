"""Loading the real sources for verification, running them on symbolic values, and exploring their paths.

Every run parses /repo/robpy/**.py again.  The only rewriting done to the parsed functions (class Hook below):
  - a `for`/`while` statement is preceded by a test whether its iterable is symbolic; if it is, the body is entered once from
    a state in which everything it assigns has been replaced by arbitrary values satisfying the loop's invariant;
  - a one-generator list comprehension becomes a call that maps the element expression over the iterable;
  - decorators, type annotations and docstrings have no effect and are left alone.
Nothing else is dropped or replaced: names such as np, pd, chi2 are bound to stand-ins that hold the contracts."""
import ast, os, sys, types, builtins, importlib, fractions, math, itertools

SRC = os.environ.get("ROBPY_SRC", "/repo")

class Unsupported(Exception): pass
class PathEnd(BaseException): pass
class Undef:
    def __repr__(self): return "<unbound>"
UNDEF = Undef()

class Sym:
    """base of all symbolic values; `domain` gives the handlers"""
    domain = None; unknown = False; _opaque = False

# ------------------------------------------------------------------ dispatching stand-ins for the libraries
def find_domain(vals, depth=3):
    for v in vals:
        if isinstance(v, Sym): return v.domain
        if depth:
            d = None
            if isinstance(v, (list, tuple)): d = find_domain(v, depth - 1)
            elif isinstance(v, dict): d = find_domain(v.values(), depth - 1)
            if d is not None: return d
    return None

CURRENT = [None]   # the active domain (also consulted for calls without symbolic arguments)

class Lib:
    """attribute path into an external library; calling it consults the active domain's contract table"""
    def __init__(self, path, real): self.__dict__.update(_path=path, _real=real)
    def __getattr__(self, a):
        if a.startswith("__") and a.endswith("__"): raise AttributeError(a)
        p = self._path + "." + a; r = getattr(self._real, a, None) if self._real is not None else None
        dom = CURRENT[0]
        if dom is not None and p in dom.values: return dom.values[p]
        if isinstance(r, (int, float, str, bool, type(None))) and r is not None: return r
        if r is None and self._real is not None and hasattr(self._real, a): return None   # np.newaxis
        l = Lib(p, r); self.__dict__[a] = l if dom is None or p not in dom.values else dom.values[p]
        return l
    def __call__(self, *a, **k):
        dom = find_domain(list(a) + list(k.values())) or CURRENT[0]
        if dom is not None:
            h = dom.handlers.get(self._path)
            if h is not None:
                r = h(*a, **k)
                if r is not NotImplemented: return r
            if find_domain(list(a) + list(k.values())) is not None:
                r = dom.unknown_call(self._path, a, k)
                if r is not NotImplemented: return r
                raise Unsupported(f"no contract for {self._path}({', '.join(map(short, a))})")
        if self._real is None: raise Unsupported(f"no contract for {self._path}")
        return self._real(*[x._real if isinstance(x, Lib) else x for x in a], **{q: (x._real if isinstance(x, Lib) else x) for q, x in k.items()})
    def __instancecheck__(self, x): return lib_isinstance(x, self)
    def __mro_entries__(self, bases): return (stub_class(self._path),)
    def __or__(self, o): return self
    __ror__ = __or__
    def __getitem__(self, i): return self
    def __hash__(self): return hash(self._path)
    def __eq__(self, o): return isinstance(o, Lib) and o._path == self._path
    def __repr__(self): return f"<lib {self._path}>"

def short(v):
    s = repr(v)
    return s if len(s) < 60 else s[:57] + "..."

_stubs = {}
def stub_class(path):
    """stand-in for a library base class"""
    if path not in _stubs:
        name = path.split(".")[-1]
        ns = {"__init__": lambda self, *a, **k: self.__dict__.update(k), "_lib_path": path}
        def getattr_(self, a):
            if a.startswith("__"): raise AttributeError(a)
            dom = CURRENT[0]
            h = dom.handlers.get(f"{path}#{a}") if dom else None
            if h is None: raise AttributeError(f"{name}.{a}")
            return lambda *x, **k: h(self, *x, **k)
        ns["__getattr__"] = getattr_
        _stubs[path] = type(name, (), ns)
    return _stubs[path]

PASS = {"abc", "dataclasses", "typing", "__future__", "logging", "warnings", "enum", "functools", "itertools", "collections", "os", "pathlib", "copy"}

class NullLogger:
    def __getattr__(self, a):
        if a in ("handlers",): return []
        return lambda *x, **k: None

class NullLogging(types.ModuleType):
    INFO = 20; WARNING = 30; DEBUG = 10; ERROR = 40
    Logger = NullLogger
    def getLogger(self, *a): return NullLogger()
    def StreamHandler(self, *a): return NullLogger()

# ------------------------------------------------------------------ AST hooks
def stored_names(nodes, mut=False):
    out = []
    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n): out.append(n.name)
        def visit_Lambda(self, n): pass
        def visit_ListComp(self, n): pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store): out.append(n.id)
        def visit_Call(self, n):
            if mut and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id not in ("np", "numpy", "pd") and n.func.attr in ("append", "extend", "insert", "pop"): out.append(n.func.value.id)
            self.generic_visit(n)
    for n in nodes: V().visit(n)
    return list(dict.fromkeys(x for x in out if not x.endswith("__")))

class Hook(ast.NodeTransformer):
    def __init__(self, modname, mut=False): self.mod = modname; self.mut = mut; self.stack = []; self.count = [0]; self.k = 0
    def _scope(self, n):
        self.stack.append(n.name); self.count.append(0)
        self.generic_visit(n)
        self.stack.pop(); self.count.pop(); return n
    def visit_ClassDef(self, n): return self._scope(n)
    def visit_FunctionDef(self, n):
        n.returns = None
        for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs: a.annotation = None
        return self._scope(n)
    def visit_AnnAssign(self, n):
        return self.generic_visit(n)
    def key(self):
        i = self.count[-1]; self.count[-1] += 1; self.k += 1
        return f"{self.mod}:{'.'.join(self.stack)}", i, f"L{self.k}__"
    def visit_For(self, n):
        fn, i, L = self.key(); names = stored_names(n.body, self.mut)
        tgt = stored_names([n.target]); names = [x for x in names if x not in tgt] + tgt
        import copy
        plain = copy.deepcopy(n); plain.iter = ast.Name(L + "it__", ast.Load())
        c0 = list(self.count); plain = self.generic_visit(plain); self.count[:] = c0   # same ordinals in both copies
        n.body = [self.visit(b) for b in n.body]; n.body = [x for b in n.body for x in (b if isinstance(b, list) else [b])]
        n.iter = self.visit(n.iter)
        P = lambda s: ast.parse(s).body
        tup = "(" + "".join(x + "," for x in names) + ")"
        pre = P(f"{L}it__ = S__.iter(0)"); pre[0].value.args = [n.iter]
        sym = P(f"{L} = S__.loop({fn!r}, {i}, {L}it__)\n" + (f"{tup} = {L}.enter(locals(), {tuple(names)!r})\n" if names else f"{L}.enter(locals(), ())\n") +
                f"if {L}.more():\n    t__ = {L}.item()\n    for o__ in (0,):\n        pass\n    else:\n        {L}.back(locals())")
        iff = sym[-1]; iff.body[0].targets = [n.target]; iff.body[1].body = n.body
        if n.orelse: iff.orelse = [self.visit(b) for b in n.orelse]
        top = P(f"if S__.conc({L}it__):\n    pass\nelse:\n    pass")[0]; top.body = [plain]; top.orelse = sym
        return [ast.copy_location(ast.fix_missing_locations(x), n) for x in pre + [top]]
    def visit_While(self, n):
        fn, i, L = self.key(); names = stored_names(n.body, self.mut)
        import copy
        plain = copy.deepcopy(n); c0 = list(self.count); plain = self.generic_visit(plain); self.count[:] = c0
        plain.body = ast.parse(f"S__.tick({fn!r}, {i})").body + plain.body
        n.body = [self.visit(b) for b in n.body]; n.body = [x for b in n.body for x in (b if isinstance(b, list) else [b])]
        test = self.visit(n.test)
        P = lambda s: ast.parse(s).body
        tup = "(" + "".join(x + "," for x in names) + ")"
        pre = P(f"{L} = S__.wloop({fn!r}, {i})")
        sym = P((f"{tup} = {L}.enter(locals(), {tuple(names)!r})\n" if names else f"{L}.enter(locals(), ())\n") +
                f"if 0:\n    for o__ in (0,):\n        pass\n    else:\n        {L}.back(locals())")
        iff = sym[-1]; iff.test = test; iff.body[0].body = n.body
        top = P(f"if {L} is None:\n    pass\nelse:\n    pass")[0]; top.body = [plain]; top.orelse = sym
        return [ast.copy_location(ast.fix_missing_locations(x), n) for x in pre + [top]]
    def visit_ListComp(self, n):
        if len(n.generators) != 1 or n.generators[0].is_async: return self.generic_visit(n)
        g = n.generators[0]
        import copy
        one = ast.parse("lambda t__: [0 for x in (t__,)][0]").body[0].value
        elt = self.visit(n.elt); it = self.visit(g.iter)
        one.body.value.elt = elt; one.body.value.generators[0].target = g.target
        call = ast.parse("S__.listcomp(0, 0, None)").body[0].value
        call.args[0] = one; call.args[1] = it
        if g.ifs:
            cond = ast.parse("lambda t__: [0 for x in (t__,)][0]").body[0].value
            test = self.visit(g.ifs[0]) if len(g.ifs) == 1 else ast.BoolOp(ast.And(), [self.visit(x) for x in g.ifs])
            cond.body.value.elt = test; cond.body.value.generators[0].target = copy.deepcopy(g.target)
            call.args[2] = cond
        return ast.copy_location(ast.fix_missing_locations(call), n)

# ------------------------------------------------------------------ loader
class World:
    """one load of the package with one runtime `S` (iter/loop/listcomp hooks and builtin overrides)"""
    def __init__(self, S, src=None):
        self.S = S; self.src = src or SRC; self.mods = {}; self.libs = {}
        self.functions = {}
    def lib(self, name):
        top = name.split(".")[0]
        if name not in self.libs:
            try: real = importlib.import_module(name)
            except Exception: real = None
            self.libs[name] = Lib(name, real)
        return self.libs[name]
    def module(self, name):
        if name in self.mods: return self.mods[name]
        base = os.path.join(self.src, *name.split("."))
        path = os.path.join(base, "__init__.py") if os.path.isdir(base) else base + ".py"
        m = types.ModuleType(name); self.mods[name] = m
        m.__file__ = path; m.__dict__["__package__"] = name if path.endswith("__init__.py") else name.rsplit(".", 1)[0]
        tree = ast.parse(open(path).read(), path)
        tree.body = [x for x in tree.body if not (isinstance(x, ast.ImportFrom) and x.module == "__future__")]
        tree = ast.fix_missing_locations(Hook(name, getattr(self.S, 'list_mut', False)).visit(tree))
        b = dict(builtins.__dict__); b["__import__"] = self.importer; b.update(self.S.builtins())
        m.__dict__["__builtins__"] = b; m.__dict__["S__"] = self.S
        try: exec(compile(tree, path, "exec"), m.__dict__)
        except BaseException: self.mods.pop(name, None); raise
        return m
    def importer(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pk = globals["__package__"].split("."); pk = pk[:len(pk) - level + 1]; name = ".".join(pk + ([name] if name else []))
        if name == "robpy" or name.startswith("robpy."):
            m = self.module(name)
            if not fromlist: return self.module("robpy")
            for f in fromlist:
                if not hasattr(m, f):
                    try: setattr(m, f, self.module(name + "." + f))
                    except FileNotFoundError: raise ImportError(f)
            return m
        top = name.split(".")[0]
        if top == "logging": return NullLogging("logging")
        if top in PASS: return importlib.__import__(name, globals, locals, fromlist, 0)
        if fromlist:
            if name == "sklearn.utils.validation" and "validate_data" in fromlist: raise ImportError(name)   # sklearn 1.3: not there
            return self.lib(name)
        return self.lib(top)
    def get(self, dotted):
        mod, _, attr = dotted.partition(":")
        o = self.module(mod)
        for a in attr.split("."): o = getattr(o, a)
        return o

def lib_isinstance(x, cls):
    p = cls._path
    if isinstance(x, Sym): return x.isinstance_of(p)
    if p.startswith("sklearn") and hasattr(type(x), "_lib_path"):
        return any(getattr(c, "_lib_path", None) == p for c in type(x).__mro__)
    if isinstance(cls._real, type): return builtins.isinstance(x, cls._real)
    return False

def sym_isinstance(x, cls):
    if isinstance(cls, tuple): return any(sym_isinstance(x, c) for c in cls)
    if isinstance(cls, types.UnionType): return any(sym_isinstance(x, c) for c in cls.__args__)
    if isinstance(cls, Lib): return lib_isinstance(x, cls)
    if isinstance(x, Sym) and not (isinstance(cls, type) and issubclass(cls, Sym)): return x.isinstance_of(getattr(cls, "__name__", str(cls)))
    return builtins.isinstance(x, cls)

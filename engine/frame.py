"""Frame conditions read off the syntax of the real functions: which attributes of self a method (and every robpy function it calls)
reads and writes, and whether it can reach a random generator, a clock, a file or other ambient state.
A method that writes nothing, is not ambient and reads only configuration attributes is a function of its arguments and that configuration;
this is the contract under which domain T may replace it by an uninterpreted function of exactly these values."""
import ast, os, core

AMBIENT = ("numpy.random", "random.", "time.", "os.", "datetime", "uuid", "secrets", "builtins.open", "builtins.input", "builtins.id", "builtins.hash", "builtins.globals", "builtins.vars")
PURE_BUILTINS = set("len range int float abs min max sum sorted isinstance list tuple dict set bool zip enumerate round any all str print ValueError TypeError RuntimeError NotImplementedError callable super getattr hasattr type iter next map filter reversed repr slice property staticmethod Exception KeyError IndexError AttributeError Warning UserWarning format divmod pow".split())

class Mod:
    cache = {}
    def __init__(self, name, src):
        base = os.path.join(src, *name.split(".")); path = os.path.join(base, "__init__.py") if os.path.isdir(base) else base + ".py"
        self.name = name; self.tree = ast.parse(open(path).read()); self.fns = {}; self.classes = {}; self.imports = {}; self.pkg = name if path.endswith("__init__.py") else name.rsplit(".", 1)[0]; self.globals = set()
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Import):
                for a in n.names: self.imports[(a.asname or a.name.split(".")[0])] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom):
                mod = n.module or ""
                if n.level: mod = ".".join(self.pkg.split(".")[:len(self.pkg.split(".")) - n.level + 1] + ([mod] if mod else []))
                for a in n.names: self.imports[a.asname or a.name] = mod + "." + a.name
        for n in self.tree.body:
            if isinstance(n, ast.FunctionDef): self.fns[n.name] = n
            elif isinstance(n, ast.ClassDef): self.classes[n.name] = n
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name): self.globals.add(t.id)
def load(name, src):
    k = (src, name)
    if k not in Mod.cache: Mod.cache[k] = Mod(name, src)
    return Mod.cache[k]
def exists(name, src):
    b = os.path.join(src, *name.split(".")); return os.path.isdir(b) or os.path.exists(b + ".py")

def dotted(n):
    if isinstance(n, ast.Name): return n.id
    if isinstance(n, ast.Attribute):
        d = dotted(n.value); return None if d is None else d + "." + n.attr
    return None

class Frame:
    def __init__(self, src=None): self.src = src or core.SRC; self.reads = set(); self.writes = set(); self.ambient = set(); self.unknown = set(); self.functions = []; self.seen = set(); self.classes_used = set()
    def resolve(self, full):
        """robpy name -> (module, kind, name)"""
        parts = full.split(".")
        for i in range(len(parts), 0, -1):
            m = ".".join(parts[:i])
            if m.startswith("robpy") and exists(m, self.src):
                M = load(m, self.src); rest = parts[i:]
                if not rest: return (M, "module", None)
                if rest[0] in M.fns: return (M, "fn", rest[0])
                if rest[0] in M.classes: return (M, "class", rest[0])
                if rest[0] in M.imports and M.imports[rest[0]] != full: return self.resolve(M.imports[rest[0]])
                return None
        return None
    def mro(self, M, cls):
        out = [(M, M.classes[cls])]
        for b in M.classes[cls].bases:
            d = dotted(b)
            if d is None: continue
            if d in M.classes: out += self.mro(M, d)
            elif d.split(".")[0] in M.imports:
                r = self.resolve(M.imports[d.split(".")[0]] + d[len(d.split(".")[0]):])
                if r and r[1] == "class": out += self.mro(r[0], r[2])
        return out
    def method(self, M, cls, name):
        for m, c in self.mro(M, cls):
            for n in c.body:
                if isinstance(n, ast.FunctionDef) and n.name == name: return m, n
        return None
    def visit(self, modname, cls, name, selfobj=True):
        """selfobj: attributes belong to the object under consideration (not to one created inside)"""
        k = (modname, cls, name, selfobj)
        if k in self.seen: return
        self.seen.add(k); M = load(modname, self.src)
        if cls:
            r = self.method(M, cls, name)
            if r is None:
                if name != "__init__": self.unknown.add(f"{cls}.{name}")
                return
            m, fn = r
        else: m, fn = M, M.fns.get(name)
        if fn is None: self.unknown.add(f"{modname}.{name}"); return
        self.functions.append(f"{m.name}:{(cls + '.') if cls else ''}{name}")
        loc = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs}
        if fn.args.vararg: loc.add(fn.args.vararg.arg)
        if fn.args.kwarg: loc.add(fn.args.kwarg.arg)
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): loc.add(n.id)
            if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn:
                for a in n.args.args: loc.add(a.arg)
                if isinstance(n, ast.FunctionDef): loc.add(n.name)
        me = fn.args.args[0].arg if cls and fn.args.args else None
        for n in ast.walk(fn):
            if isinstance(n, (ast.Global, ast.Nonlocal)): self.writes.update("global " + x for x in n.names)
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me and me:
                mm = self.method(M, cls, n.attr)
                if mm is not None: self.visit(modname, cls, n.attr, selfobj); continue
                if selfobj: (self.writes if isinstance(n.ctx, (ast.Store, ast.Del)) else self.reads).add(n.attr)
                continue
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                b = n.value
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and b.value.id == me and me and selfobj: self.writes.add(b.attr)
                    b = b.value
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
                d = dotted(n)
                if d is None: continue
                root = d.split(".")[0]
                if root in loc or root == me: continue
                if root in m.imports: self.use(m.imports[root] + d[len(root):])
                elif isinstance(n, ast.Name):
                    if root in m.fns: self.visit(m.name, None, root)
                    elif root in m.classes: self.cls(m, root)
                    elif root in m.globals: pass
                    elif any(("builtins." + root).startswith(a) for a in AMBIENT): self.ambient.add(root)
                    elif root not in PURE_BUILTINS: self.unknown.add(root)
    def cls(self, M, name):
        k = (M.name, name)
        if k in self.classes_used: return
        self.classes_used.add(k)
        for m, c in self.mro(M, name):
            for n in c.body:
                if isinstance(n, ast.FunctionDef): self.visit(M.name, name, n.name, False)
    def use(self, full):
        if full.startswith("robpy"):
            r = self.resolve(full)
            if r is None: 
                return
            if r[1] == "fn": self.visit(r[0].name, None, r[2])
            elif r[1] == "class": self.cls(r[0], r[2])
            return
        if any(full.startswith(a) for a in AMBIENT): self.ambient.add(full)

def function_of(E, what, modname, cls, name, config, writes=()):
    """obligation: the method is a function of its arguments and of the attributes in config.  Reported 'unsupported' when the analysis
    does not show it (a change of frame alone breaks no property; the run-time contracts decide then)"""
    fn = f"{modname}:{cls + '.' if cls else ''}{name}"
    if E.only and not any(x in fn for x in E.only): return None
    f = Frame()
    try: f.visit(modname, cls, name)
    except Exception as e: E.unsupported(fn, f"{type(e).__name__}: {e}"); return None
    bad = [f"writes {sorted(f.writes - set(writes))}"] * bool(f.writes - set(writes)) + [f"reads {sorted(f.reads - set(config) - {'logger'})}"] * bool(f.reads - set(config) - {"logger"}) + [f"reaches {sorted(f.ambient)}"] * bool(f.ambient) + [f"not resolved: {sorted(f.unknown)}"] * bool(f.unknown)
    E.add(f"{what}: frame (writes {sorted(writes)}, reads {sorted(config)} only, no random generator, clock or file)", fn, "unsupported" if bad else True, "frame analysis", detail="; ".join(bad))
    return f

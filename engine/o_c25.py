"""C25: no call modifies the caller's data; imputed and cleaned data sets share no memory with the input"""
import ast, os, traceback, core
from own import *
from frame import load, dotted

def modules(src):
    out = []
    for dp, dn, fn in os.walk(os.path.join(src, "robpy")):
        for f in sorted(fn):
            if f.endswith(".py") and not f.startswith("__init__"): out.append(os.path.relpath(os.path.join(dp, f), src)[:-3].replace(os.sep, "."))
    return sorted(out)
SCALAR = ("int", "float", "str", "bool", "Literal", "tuple[int", "tuple[float")
def isdata(a):
    s = ast.unparse(a.annotation) if a.annotation is not None else ""
    if "Callable" in s: return False
    if any(x in s for x in ("ndarray", "DataFrame", "Series", "array", "ArrayLike")): return True
    if s == "": return a.arg in ("X", "y", "x", "X_test", "y_test", "data")
    return False
def arguments(I, st, M, cls, n, skip, own=None):
    """arguments of a call by the user: data are the caller's memory, the rest any value of its type"""
    a = n.args; kw = {}; pos = a.posonlyargs + a.args; pos = pos[skip:]
    dfl = dict(zip([x.arg for x in pos][len(pos) - len(a.defaults):], a.defaults)) if a.defaults else {}
    dfl.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    for x in pos + a.kwonlyargs:
        if isdata(x):
            k = {"arr", "frame"}; s = ast.unparse(x.annotation) if x.annotation is not None else ""
            if s in ("np.ndarray", "numpy.ndarray", "np.array") : k = {"arr", "frame"}
            if "None" in s or (x.arg in dfl and isinstance(dfl[x.arg], ast.Constant) and dfl[x.arg].value is None): k |= {"none"}
            kw[x.arg] = V(k, al={f"the argument {x.arg}"})
        else: kw[x.arg] = I.param(st, M, "arg", x, dfl.get(x.arg), ())
    return kw
def public(I, cls):
    """public methods of a class, with the module and class that define them"""
    out = {}
    for M, c in I.mro(cls):
        for n in c.body:
            if isinstance(n, ast.FunctionDef) and not n.name.startswith("_") and n.name not in out: out[n.name] = (M, c, n)
    return out
# results that are data sets of their own
OWN = {("DDC", "impute"), ("DataCleaner", "transform"), ("RobustScaler", "transform"), ("RobustScaler", "inverse_transform"), ("RobustPowerTransformer", "transform"), ("RobustPowerTransformer", "inverse_transform"), ("", "wrapping_transformation")}
OWNATTR = {("CellMCD", "X_imputed"), ("CellMCD", "imputed_"), ("InitialDDCW", "X_imputed")}

def report(E, unit, Is, what="no statement writes into memory of the caller"):
    facts = {}
    for I in Is:
        for k, (ok, d) in I.facts.items():
            o = facts.get(k); facts[k] = (ok and (o is None or o[0]), d if not ok else (o[1] if o else ""))
        E.trust(*sorted(I.trust))
        for v in I.visited:
            if v and v not in E.functions and not v.endswith("lambda"): E.functions.append(v)
    if not any(I.done for I in Is): E.unsupported(unit, "every analysed path raises")
    if not facts: E.add(what, unit, True, "ownership analysis")
    for k, (ok, d) in facts.items(): E.add(k, unit, ok, "ownership analysis", detail=d)
def claim(E, name):
    if E.only and not any(x in name for x in E.only): return False
    return E.claim()
def guarded(E, name, f):
    if not claim(E, name): return
    n = len(E.obls)
    try: f()
    except Unsupported as e: E.unsupported(name, str(e), traceback.format_exc())
    except RecursionError as e: E.unsupported(name, "recursion", "")
    except Exception as e: E.unsupported(name, f"{type(e).__name__}: {e}", traceback.format_exc())
    for o in E.obls[n:]: o["unit"] = E.idx

ASSUME = "every program path is taken to be possible except those excluded by constants, configuration values (same expression, same value) and None tests; callables given in the configuration are pure; no monkey patching; data arguments of a call share no memory with attributes other than through earlier calls that are analysed too"
def run(E):
    src = core.SRC
    E.assume(ASSUME)
    for m in modules(src):
        M = load(m, src)
        for nm, n in M.fns.items():
            if nm.startswith("_"): continue
            def go(M=M, nm=nm, n=n):
                def r(I):
                    st = State(); kw = arguments(I, st, M, None, n, 0); I.fork = False; v = I.call(st, Fn(n, M, owner=f"{M.name}:{nm}"), [], kw, n)
                    if ("", nm) in OWN: al = I.deep(st, v); I.fact(f"{M.name}:{nm}: the result shares no memory with the caller's data", not al, f"may share memory with {sorted(al)}")
                report(E, f"{M.name}:{nm}", explore(lambda: Interp(f"{M.name}:{nm}"), r))
            guarded(E, f"{m}:{nm}", go)
        for c in M.classes:
            cls = f"{m}:{c}"; I0 = Interp(cls)
            if I0.abstract(cls) or I0.allraises(cls) or I0.subclasses(cls) and not I0.find(cls, "_calculate"): continue
            pub = public(I0, cls)
            if not any(isdata(a) for _, _, n in pub.values() for a in n.args.args): continue
            fits = [x for x in ("fit",) if x in pub]
            def go(cls=cls, c=c, pub=pub, fits=fits):
                bad = {}
                def r(I):
                    st = State(); o = I.subject(st, cls, "self", prior=False); I.cfgwrites_ok = ALL; I.fork = False
                    def call(st, name):
                        M1, c1, n = I.find(cls, name)
                        f = Fn(n, M1, cls, None if I.isstatic(n) else o, owner=f"{M1.name}:{c1.name}.{n.name}")
                        if I.isprop(n): return I.call(st, f, [], {}, n)
                        return I.call(st, f, [], arguments(I, st, M1, cls, n, 0 if I.isstatic(n) else 1), n)
                    def check(st, k, v):
                        if (c, k) in OWN: al = I.deep(st, v); I.fact(f"{c}.{k}: the result shares no memory with the caller's data", not al, f"may share memory with {sorted(al)}")
                        for a, (x, s) in st.heap["self"].items():
                            if (c, a) in OWNATTR: al = I.deep(st, x); I.fact(f"{c}.{a} shares no memory with the caller's data", not al, f"may share memory with {sorted(al)}")
                    try:
                        for x in fits: check(st, x, call(st, x))
                    except Unsupported as e: bad["fit"] = (str(e), traceback.format_exc()); return
                    for k in pub:
                        if k in fits: continue
                        s = st.copy()
                        try: check(s, k, call(s, k))
                        except Raised: pass
                        except Unsupported as e: bad[k] = (str(e), traceback.format_exc())
                report(E, cls, explore(lambda: Interp(cls), r))
                for k, (e, tb) in bad.items(): E.unsupported(f"{cls}.{k}", e, tb)
            guarded(E, cls, go)
class _All:
    def __contains__(self, x): return True
ALL = _All()

"""C24: with a seed given (where there is one), results do not depend on the state of the global random generator, a clock or other ambient
state, nor on generators that live longer than the call"""
import ast, os, traceback, core
from own import *
from o_c25 import arguments, public, report, guarded, isdata, modules, ASSUME
from frame import load
SEEDS = ("random_seed", "random_state", "seed")
PLOTS = ("plot", "map")
def isplot(k): return any(x in k for x in PLOTS)

def run(E):
    src = core.SRC; E.assume(ASSUME, "a seeded library generator yields the same numbers every time; BLAS, LAPACK and the library algorithms used without a random solver are deterministic")
    for m in modules(src):
        if m.startswith("robpy.datasets"): continue
        M = load(m, src)
        for nm, n in M.fns.items():
            if nm.startswith("_") or "visualization" in m: continue
            def go(M=M, nm=nm, n=n):
                def r(I):
                    I.mode = {"seeds"}; st = State(); kw = arguments(I, st, M, None, n, 0)
                    for k in kw:
                        if k in SEEDS: kw[k] = V({"num"}, ck=f"arg:{k}")
                    try: I.call(st, Fn(n, M, owner=f"{M.name}:{nm}"), [], kw, n)
                    except Unsupported as e: I.unsup.append((nm, str(e), traceback.format_exc()))
                report(E, f"{M.name}:{nm}", Is := levels(lambda: Interp(f"{M.name}:{nm}"), r), "every random number comes from a generator seeded in this call")
                for k, e, tb in {u[0]: u for I in Is for u in I.unsup}.values(): E.unsupported(f"{M.name}:{k}", e, tb)
            guarded(E, f"{m}:{nm}", go)
        for c in M.classes:
            cls = f"{m}:{c}"; I0 = Interp(cls)
            if I0.abstract(cls) or I0.allraises(cls) or I0.subclasses(cls) and not I0.find(cls, "_calculate"): continue
            pub = public(I0, cls)
            if not any(isdata(a) for _, _, n in pub.values() for a in n.args.args): continue
            def go(cls=cls, c=c, pub=pub):
                def r(I):
                    st = State(); o = I.subject(st, cls, "self", seedok=SEEDS, prior=False); I.cfgwrites_ok = ALL; I.mode = {"seeds"}
                    def call(st, name):
                        M1, c1, n = I.find(cls, name)
                        f = Fn(n, M1, cls, None if I.isstatic(n) else o, owner=f"{M1.name}:{c1.name}.{n.name}"); st.seed = "no"
                        if I.isprop(n): return I.call(st, f, [], {}, n)
                        return I.call(st, f, [], arguments(I, st, M1, cls, n, 0 if I.isstatic(n) else 1), n)
                    try:
                        if "fit" in pub: call(st, "fit")
                    except Unsupported as e: I.unsup.append(("fit", str(e), traceback.format_exc())); return
                    for k in pub:
                        if k in ("fit", "calculate_covariance") or isplot(k): continue
                        s = st.copy()
                        try: call(s, k)
                        except Raised: pass
                        except Unsupported as e: I.unsup.append((k, str(e), traceback.format_exc()))
                report(E, cls, Is := levels(lambda: Interp(cls), r), "every random number comes from a generator seeded in this call")
                for k, e, tb in {u[0]: u for I in Is for u in I.unsup}.values(): E.unsupported(f"{cls}.{k}", e, tb)
            guarded(E, cls, go)
class _All:
    def __contains__(self, x): return True
ALL = _All()

"""C23: a fit sees only its data and the configuration: nothing left over from earlier calls is read, nothing left over survives in what
later calls read, the configuration is not written; the other methods leave nothing behind that a later call reads"""
import ast, os, traceback, core
from own import *
from o_c25 import arguments, public, report, guarded, isdata, modules, ASSUME
from frame import load

# reports about the last data seen, by definition
REPORTS = {("DataCleaner", "dropped_columns"), ("DataCleaner", "dropped_rows")}
CONFIG_SET_IN_FIT = {"n_components"}
def run(E):
    src = core.SRC; E.assume(ASSUME, "attributes are set by the methods of the class alone; library objects created in a call keep no state across calls (loggers keep their level)")
    for m in modules(src):
        for c in load(m, src).classes:
            cls = f"{m}:{c}"; I0 = Interp(cls)
            if I0.abstract(cls) or I0.allraises(cls) or I0.subclasses(cls) and not I0.find(cls, "_calculate"): continue
            pub = public(I0, cls)
            if "fit" not in pub: continue
            def go(cls=cls, c=c, pub=pub):
                def r(I):
                    st = State(); o = I.subject(st, cls, "self"); I.cfgwrites_ok = CONFIG_SET_IN_FIT; I.mode = {"stale"}
                    def call(st, name):
                        M1, c1, n = I.find(cls, name)
                        f = Fn(n, M1, cls, None if I.isstatic(n) else o, owner=f"{M1.name}:{c1.name}.{n.name}")
                        if I.isprop(n): return I.call(st, f, [], {}, n)
                        return I.call(st, f, [], arguments(I, st, M1, cls, n, 0 if I.isstatic(n) else 1), n)
                    try: call(st, "fit")
                    except Unsupported as e: I.unsup.append(("fit", str(e), traceback.format_exc())); return
                    for a, (v, q) in st.heap["self"].items():
                        if "own" in q and a.endswith("_") and not a.startswith("_"): I.fact(f"{c}.fit: {a} is set on every path or on none", "stale" not in q, "an early exit leaves the value of an earlier fit")
                    f0 = I.fork; I.fork = False
                    # what the other methods write is not read later on
                    for k in pub:
                        if k in ("fit", "calculate_covariance"): continue
                        s = st.copy(); I.attrwrites = set(); before = {t: dict(s.heap[t]) for t in I.tracked}
                        try: call(s, k)
                        except Raised: pass
                        except Unsupported as e: I.unsup.append((k, str(e), traceback.format_exc())); continue
                        W = {w for w in I.attrwrites if w[0] in before}
                        I.fact(f"{c}.{k}: what it leaves behind is known", True)
                        if not W: continue
                        for k2 in pub:
                            if (c, k2) in REPORTS or k2 in ("fit", "calculate_covariance"): continue
                            s2 = s.copy()
                            for t, a in W: s2.heap[t][a] = (V(ANY), frozenset({"stale"}))
                            try: call(s2, k2)
                            except Raised: pass
                            except Unsupported as e: I.unsup.append((k + "; " + k2, str(e), traceback.format_exc()))
                report(E, cls, Is := levels(lambda: Interp(cls), r)); print(cls, len(Is)) if os.environ.get('TDBG') else None
                for k, e, tb in {u[0]: u for I in Is for u in I.unsup}.values(): E.unsupported(f"{cls}.{k}", e, tb)
            guarded(E, cls, go)

#!/usr/bin/env python3
"""main.py Cnn --tier T --out F: generates the obligations of one property from /repo's current sources and discharges them"""
import sys, os, argparse, json, time, traceback, importlib, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
import core, warnings, types
warnings.simplefilter('ignore')

class Engine:
    def __init__(self, tier): self.tier = tier; self.obls = []; self.assumptions = []; self.trusted = []; self.functions = []; self.canaries = 0; self.queries = 0; self.bounded = []; self.t0 = time.time(); self.only = [x for x in os.environ.get('ONLY', '').split(';') if x]
    shared = None; idx = 0; order = 0
    def claim(self):
        """units are shared out among the worker processes"""
        self.idx += 1; self.order = self.idx
        if self.shared is None: return True
        with self.shared.get_lock():
            if self.shared[self.idx]: return False
            self.shared[self.idx] = 1; return True
    # domain S
    def sdomain(self, **k):
        import sdomain
        d = sdomain.SDomain(**k); d.engine = self; return d
    def unit(self, d, function, f, limit=4000, canary=True):
        """explore f on all paths in domain d; every failure to translate becomes an 'unsupported' obligation"""
        if self.only and not any(x in function for x in self.only): return
        if not self.claim(): return
        d.results = {}; d.order = []; n0 = 0; k = [0]; t0 = time.time(); live = [False]
        def g():
            f()
            if canary and not live[0] and d.canary(): live[0] = True
        try: d.explore(function, g, limit)
        except core.Unsupported as e: self.unsupported(function, str(e), traceback.format_exc())
        except Exception as e: self.unsupported(function, f"{type(e).__name__}: {e}", traceback.format_exc())
        used = getattr(d.handlers, "used", None)
        if used: 
            self.trust(*["contract of " + x.replace("method.", "ndarray.").replace("frame.", "DataFrame.") for x in used if "estimator." not in x])
            self.assume("arithmetic over the reals; index ranges valid, matrices that are inverted regular, divisors nonzero, loop variables bound when used after a loop that runs at least once")
        new = d.order[n0:]
        for key in new: self.obls.append(dict(d.results[key], unit=self.idx))
        if not new: self.obls.append(dict(name="at least one obligation", function=function, status="unsupported", backend="-", sec=0, detail="no path reached an obligation"))
        elif canary and not live[0]: self.obls.append(dict(name="assumptions are satisfiable", function=function, status="unsupported" if any(o["status"] == "unsupported" and o["function"] == function for o in self.obls) else "failed", backend="z3", sec=0, detail="every explored path is contradictory"))
        for o in self.obls: o.setdefault("unit", self.idx)
        self.canaries += d.canaries; d.canaries = 0; self.queries += d.queries; d.queries = 0
    def unsupported(self, function, why, tb=""):
        self.obls.append(dict(name="translation", function=function, status="unsupported", backend="-", sec=0, detail=why + "\n" + tb[-int(os.environ.get("TBN", "1500")):]))
    def add(self, name, function, ok, backend, sec=0.0, detail=""):
        self.obls.append(dict(name=name, function=function, status=ok if isinstance(ok, str) else "proved" if ok else "failed", backend=backend, sec=round(sec, 4), detail=detail))
        if function not in self.functions: self.functions.append(function)
    def trust(self, *t):
        for x in t:
            if x not in self.trusted: self.trusted.append(x)
    def assume(self, *t):
        for x in t:
            if x not in self.assumptions: self.assumptions.append(x)
    def dump(self):
        for o in self.obls: o.setdefault("unit", 0)
        return dict(obligations=self.obls, assumptions=self.assumptions, trusted=self.trusted, functions=self.functions, canaries=self.canaries, queries=self.queries, bounded=self.bounded, wall=round(time.time() - self.t0, 2))

def work(pid, tier, shared, q):
    E = Engine(tier); E.shared = shared
    try: importlib.import_module("o_" + pid.lower()).run(E)
    except Exception as e: E.unsupported("module", f"{type(e).__name__}: {e}", traceback.format_exc())
    q.put(E.dump())

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("pid"); ap.add_argument("--tier", default="quick"); ap.add_argument("--out"); ap.add_argument("-j", type=int, default=min(8, os.cpu_count() or 1)); a = ap.parse_args()
    t0 = time.time()
    import multiprocessing as mp
    ctx = mp.get_context("fork"); shared = ctx.Array("b", 4000); q = ctx.Queue()
    ps = [ctx.Process(target=work, args=(a.pid, a.tier, shared, q)) for _ in range(a.j)]
    for p in ps: p.start()
    outs = []
    while len(outs) < len(ps):
        try: outs.append(q.get(timeout=5))
        except Exception:
            if not any(p.is_alive() for p in ps):
                while not q.empty(): outs.append(q.get())
                break
    for p in ps: p.join(5)
    out = dict(obligations=[], assumptions=[], trusted=[], functions=[], canaries=0, queries=0, bounded=[])
    if len(outs) < len(ps): out["obligations"].append(dict(name="worker process", function="-", status="unsupported", backend="-", sec=0, detail="a worker process ended without an answer", unit=0))
    seen = set()
    for o in outs:
        for k in ("assumptions", "trusted", "bounded", "functions"): out[k] += [x for x in o[k] if x not in out[k]]
        out["canaries"] += o["canaries"]; out["queries"] += o["queries"]
        for x in o["obligations"]:
            if x["unit"] == 0:                  # outside any unit: every worker made it
                if (x["name"], x["function"]) in seen: continue
                seen.add((x["name"], x["function"]))
            out["obligations"].append(x)
    out["obligations"].sort(key=lambda x: x["unit"])
    for x in out["obligations"]:
        if x["function"] not in out["functions"] and x["function"] != "-": out["functions"].append(x["function"])
    for k in ("assumptions", "trusted"): out[k].sort()
    out["wall"] = round(time.time() - t0, 2); E = types.SimpleNamespace(**out, obls=out["obligations"])
    if a.out: json.dump(out, open(a.out, "w"), indent=1, default=str)
    bad = [o for o in E.obls if o["status"] != "proved"]
    print(f"{a.pid}: {len(E.obls) - len(bad)}/{len(E.obls)} obligations discharged, {E.queries} queries, {E.canaries} canaries, {out['wall']} s")
    for o in bad[:8]: print(f"  [{o['status']}] {o['function']}: {o['name']}\n     {str(o['detail'])[:int(os.environ.get("TBN", "700"))]}")
if __name__ == "__main__": main()

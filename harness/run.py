"""harness/run.py ID --seed S --tier quick|thorough --out FILE [--only fn --k K] : evaluates the contracts on the real code"""
import os, sys
for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"): os.environ[v] = "1"
os.environ.setdefault("MPLBACKEND", "Agg"); os.environ["TQDM_DISABLE"] = "1"
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here); sys.path.insert(0, os.environ.get("ROBPY_SRC", "/repo"))
import argparse, json, time, signal, traceback, importlib, multiprocessing as mp
import numpy as np
from functools import partial
import lib
lib.quiet()

class Hang(Exception): pass
def _alarm(s, f): raise Hang()

def private_gone(e):
    """the contract addresses an internal helper that this tree no longer has under that name/signature: not a behaviour"""
    tb = e.__traceback__
    while tb.tb_next: tb = tb.tb_next
    if not tb.tb_frame.f_code.co_filename.startswith(here): return False
    m = str(e)
    if isinstance(e, AttributeError): return "attribute '_" in m
    if isinstance(e, ImportError): return "cannot import name '_" in m
    return isinstance(e, TypeError) and m.split("(")[0].split(".")[-1].startswith("_") and ("argument" in m)

def one(task):
    pid, fn, k, seed, tmo = task
    f = next(c for c in lib.CASES[pid] if c[0] == fn)[1]
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, tmo)
    import zlib
    rng = np.random.default_rng([seed, zlib.crc32(fn.encode()), k])
    t = time.time()
    try:
        d = f(rng, k)
        return (fn, k, "ok", str(d)[:300] if d is not None else "", time.time() - t)
    except lib.Skip:
        return (fn, k, "skip", "", time.time() - t)
    except lib.Bad as e:
        return (fn, k, "bad", str(e), time.time() - t)
    except Hang:
        return (fn, k, "bad", f"no result within {tmo} s (on this input the call does not return)", time.time() - t)
    except Exception as e:
        if private_gone(e): return (fn, k, "skip", "", time.time() - t)
        return (fn, k, "bad", f"raised {type(e).__name__}: {e}\n" + traceback.format_exc()[-1500:], time.time() - t)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid"); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--tier", default="quick")
    ap.add_argument("--out"); ap.add_argument("--only"); ap.add_argument("--k", type=int); ap.add_argument("--budget", type=float, default=60)
    ap.add_argument("--mult", type=float, default=1.0); ap.add_argument("--offset", type=int, default=0)
    a = ap.parse_args()
    importlib.import_module("h_" + a.pid.lower())
    lib.quiet()
    cs = lib.CASES[a.pid]
    if a.only:
        c = next(c for c in cs if c[0] == a.only)
        r = one((a.pid, a.only, a.k, a.seed, c[4])); print(r[2], r[3])
        sys.exit(1 if r[2] == "bad" else 0)
    counts = [(n, int((q if a.tier == "quick" else t) * a.mult), tmo) for n, f, q, t, tmo in cs]
    tasks = []
    m = max(c[1] for c in counts)
    for i in range(m):          # interleave proportionally, so that a time cut keeps the balance
        for n, q, tmo in counts:
            lo, hi = i * q // m, (i + 1) * q // m
            tasks += [(a.pid, n, a.offset + k, a.seed, tmo) for k in range(lo, hi)]
    t0 = time.time(); res = []; cut = False
    ctx = mp.get_context("fork")
    with ctx.Pool(min(8, os.cpu_count() or 2)) as pool:
        for r in pool.imap_unordered(one, tasks, chunksize=1):
            res.append(r)
            if sum(x[2] == "bad" for x in res) >= 5: break
            if time.time() - t0 > a.budget: cut = True; break
        pool.terminate()
    res.sort(key=lambda r: (r[0], r[1]))
    bad = [dict(fn=r[0], k=r[1], seed=a.seed, detail=r[3]) for r in res if r[2] == "bad"]
    per = {}
    for r in res:
        d = per.setdefault(r[0], dict(ok=0, skip=0, bad=0, sec=0.0)); d[r[2]] += 1; d["sec"] += r[4]
    for d in per.values(): d["sec"] = round(d["sec"], 2)
    out = dict(pid=a.pid, evaluations=len(res), ok=sum(r[2] == "ok" for r in res), per_contract=per, violations=bad, time_cut=cut,
               samples=[f"{r[0]}[{r[1]}] {r[3]}" for r in res if r[2] == "ok" and r[3]][:6], wall=round(time.time() - t0, 2))
    s = json.dumps(out, indent=1)
    if a.out: open(a.out, "w").write(s)
    else: print(s)

if __name__ == "__main__": main()

#!/usr/bin/env python3
"""check.py Cnn [--tier quick|thorough]: decides one property on /repo's current tree.

1. engine/main.py Cnn: obligations generated from /repo's sources on this run, discharged by the back ends (if the property has any)
2. harness/run.py Cnn: the same contracts evaluated at run time on the real package (bounded; the replay and witness search)
exit 0 held; exit 1 + VIOLATION line; exit 3 the check itself could not run"""
import argparse, json, os, subprocess, sys, time, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
VT = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
PY = "/opt/venv/bin/python"
SRC = os.environ.get("ROBPY_SRC", "/repo")
TIERS = {"quick": dict(budget=150, wit=(6, 200), eng=600), "thorough": dict(budget=900, wit=(20, 900), eng=3000)}

def env():
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", ROBPY_SRC=SRC, PYTHONHASHSEED="0")
    e.pop("PYTHONPATH", None)
    return e

def start(cmd, log):
    return subprocess.Popen(cmd, stdout=open(log, "w"), stderr=subprocess.STDOUT, env=env(), cwd=HERE, start_new_session=True)

def finish(p, tmo):
    try: return p.wait(tmo)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait(); return None

def load(f):
    try: return json.load(open(f))
    except Exception: return None

def findings(pid):
    out = []
    for l in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
        l = l.strip()
        if l.startswith("known: property=" + pid + " "): out.append(l.split(" ", 2)[2])
    return out

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("pid"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args(); pid = a.pid; T = TIERS[a.tier]; seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time(); tmp = os.path.join(HERE, "evidence", "tmp"); rep = os.path.join(HERE, "evidence", "replays")
    for d in (tmp, rep): os.makedirs(d, exist_ok=True)
    f = lambda s: os.path.join(tmp, f"{pid}.{s}")
    for s in ("eng.json", "har.json", "wit.json"):
        if os.path.exists(f(s)): os.remove(f(s))
    for x in os.listdir(rep):
        if x.startswith(pid + "."): os.remove(os.path.join(rep, x))
    has_engine = os.path.exists(os.path.join(HERE, "engine", f"o_{pid.lower()}.py"))
    eng = start([VT, "-u", os.path.join(HERE, "engine", "main.py"), pid, "--tier", a.tier, "--out", f("eng.json")], f("eng.log")) if has_engine else None
    hcmd = [PY, os.path.join(HERE, "harness", "run.py"), pid, "--seed", str(seed), "--tier", a.tier]
    har = start(hcmd + ["--mult", "3" if a.tier == "quick" else "1", "--out", f("har.json"), "--budget", str(T["budget"])], f("har.log"))
    hrc = finish(har, T["budget"] + 200); H = load(f("har.json"))
    if H is None:
        print(open(f("har.log")).read()[-3000:]); print(f"ERROR {pid}: the run-time contracts could not be evaluated (rc={hrc})")
        if eng: finish(eng, 1)
        sys.exit(3)
    viol = list(H["violations"]); E = None
    if eng:
        erc = finish(eng, 5 if viol else T["eng"]); E = load(f("eng.json"))
        if E is None and not viol:
            print(open(f("eng.log")).read()[-3000:]); print(f"ERROR {pid}: the deductive engine gave no answer (rc={erc})"); 
            E = dict(obligations=[dict(name="engine run", function="-", status="unsupported", detail="no answer: " + open(f("eng.log")).read()[-2000:], backend="-", sec=0)], assumptions=[], trusted=[], canaries=0)
    kf = findings(pid)
    for k in kf: print(f"KNOWN-FINDING: property={pid} {k}")
    # 'failed': the back end was asked and did not prove it; 'unsupported': no obligation could be generated from the changed code (undecided)
    notproved = [o for o in E["obligations"] if o["status"] != "proved"] if E else []
    if E and not E["obligations"]: notproved = [dict(name="no obligations generated", function="-", status="unsupported", detail="", backend="-", sec=0)]
    fails = [o for o in notproved if o["status"] != "unsupported"]; undecided = [o for o in notproved if o["status"] == "unsupported"]
    searched = 0
    if notproved and not viol:
        m, b = T["wit"]; b = min(b, max(60, 800 - (time.time() - t0))) if a.tier == "quick" else b
        # contracts addressing the same function first
        w = start(hcmd + ["--out", f("wit.json"), "--mult", str(m), "--offset", "100000", "--budget", str(b)], f("wit.log"))
        finish(w, b + 100); W = load(f("wit.json"))
        if W: viol += W["violations"]; searched = W["evaluations"]
    code = 0
    out = dict(property=pid, tier=a.tier, seed=seed)
    if viol:
        v = viol[0]; path = os.path.join(rep, f"{pid}.{v['fn']}.{v['k']}.json")
        json.dump(dict(property=pid, kind="input", contract=v["fn"], k=v["k"], seed=v["seed"], detail=v["detail"],
                       failed_obligations=notproved[:5], all_violations=viol,
                       replay=f"ROBPY_SRC={SRC} {PY} {HERE}/harness/run.py {pid} --only {v['fn']} --k {v['k']} --seed {v['seed']}"), open(path, "w"), indent=1)
        print(v["detail"][:1500]); print(f"VIOLATION property={pid} replay={path}"); code = 1
    elif fails:
        o = fails[0]; path = os.path.join(rep, f"{pid}.obligation.json")
        json.dump(dict(property=pid, kind="obligation", obligation=o["name"], function=o["function"], status=o["status"], verifier_output=o.get("detail"),
                       all_failed=fails, inputs_tried=H["evaluations"] + searched,
                       replay=f"ROBPY_SRC={SRC} {VT} {HERE}/engine/main.py {pid} --out /dev/stdout"), open(path, "w"), indent=1)
        print(f"obligation {o['name']} ({o['function']}): {o['status']}\n{str(o.get('detail'))[:1500]}"); print(f"VIOLATION property={pid} replay={path} no-failing-input-found"); code = 1
    cov = dict(evaluations=H["evaluations"] + searched, distinct_nontrivial=H["ok"] + len(viol),
               rule="run-time contracts on the real functions over inputs drawn from VERIF_SEED (each index its own random stream); an input counts when it meets the contract's precondition",
               samples=H["samples"] or [f"{k}: {v}" for k, v in list(H["per_contract"].items())[:3]], per_contract=H["per_contract"])
    if E:
        by = {}
        for o in E["obligations"]: by.setdefault(o["backend"], [0, 0, 0.0]); b_ = by[o["backend"]]; b_[0] += 1; b_[1] += o["status"] == "proved"; b_[2] = round(b_[2] + o["sec"], 3)
        cov.update(obligations=len(E["obligations"]), discharged=sum(o["status"] == "proved" for o in E["obligations"]),
                   checker_cmd=f"{VT} {HERE}/engine/main.py {pid}", trusted_base=E["trusted"], functions_under_contract=E.get("functions", []),
                   back_ends={k: dict(obligations=v[0], discharged=v[1], solver_s=v[2]) for k, v in by.items()}, vacuity_canaries=E.get("canaries", 0), solver_queries=E.get("queries", 0),
                   bounded_parts=E.get("bounded", []), obligation_names=[o["name"] for o in E["obligations"]][:400])
        if undecided: cov["undecided"] = [dict(name=o["name"], function=o["function"], detail=str(o.get("detail"))[:600]) for o in undecided]
        out["level"] = "proof" if not undecided else "exploration"
    else: out["level"] = "exploration"
    out.update(coverage=cov, assumptions=(E["assumptions"] if E else []) + ["run-time part: floating-point results compared within the stated relative tolerances"], wall_s=round(time.time() - t0, 2), violations=code)
    json.dump(out, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for o in undecided: print(f"UNDECIDED {pid}: {o['name']} ({o['function']}): {str(o.get('detail'))[:200]}; the run-time contracts (bounded) found no violation" if code == 0 else f"UNDECIDED {pid}: {o['name']} ({o['function']})")
    if code == 0: print(f"{pid}: held; {cov.get('discharged', 0)}/{cov.get('obligations', 0)} obligations discharged, {H['evaluations']} contract evaluations, {out['wall_s']} s")
    sys.exit(code)
main()

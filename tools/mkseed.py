"""mkseed.py FILE...: each FILE is a python file defining ID, PROPERTY, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (python source).
Confirms in a scratch copy that the patch applies, tests pass, the demo passes without and fails with the change, then writes /verif/seeded/ID."""
import sys, os, subprocess, json, shutil, tempfile
ENV = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
SH = '#!/bin/bash\nPYTHONPATH="$PWD" MPLBACKEND=Agg TQDM_DISABLE=1 PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'
BASE = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
def run(c, cwd, t=280): return subprocess.run(c, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=t)
for f in sys.argv[1:]:
    g = {}; exec(open(f).read(), g); i = g["ID"]
    d = tempfile.mkdtemp(prefix="seed", dir="/tmp"); r = d + "/repo"
    try:
        shutil.copytree("/repo", r, symlinks=True)
        o = f"/verif/seeded/{i}"; tmp = d + "/demo"; os.makedirs(tmp)
        open(tmp + "/demo.sh", "w").write(SH); open(tmp + "/demo.py", "w").write(g["DEMO"]); os.chmod(tmp + "/demo.sh", 0o755)
        a = run(["bash", tmp + "/demo.sh"], r)
        if a.returncode: print(i, "DEMO FAILS ON CLEAN", a.stdout[-500:], a.stderr[-800:]); continue
        ok = True
        for fn, old, new in g["EDITS"]:
            p = r + "/" + fn; s = open(p).read()
            if s.count(old) != 1: print(i, "old text found", s.count(old), "times in", fn); ok = False; break
            orig = run(["git", "show", f"{BASE}:{fn}"], r).stdout
            rem = set(old.split("\n")) - set(new.split("\n"))
            miss = [l for l in rem if l not in orig.split("\n")]
            if miss: print(i, "NOTE lines not in the original:", miss)
            open(p, "w").write(s.replace(old, new))
        if not ok: continue
        b = run(["bash", tmp + "/demo.sh"], r)
        if b.returncode == 0: print(i, "DEMO PASSES WITH THE CHANGE"); continue
        t = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider"], r, 600)
        if " passed" not in t.stdout or "failed" in t.stdout or "error" in t.stdout.lower().split("\n")[-2]: print(i, "TESTS FAIL", t.stdout[-600:]); continue
        diff = run(["git", "diff"], r).stdout
        os.makedirs(o, exist_ok=True); open(o + "/patch.diff", "w").write(diff)
        for n in ("demo.sh", "demo.py"): shutil.copy(tmp + "/" + n, o)
        json.dump(dict(property=g["PROPERTY"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(o + "/meta.json", "w"), indent=1)
        print(i, "KEPT", t.stdout.strip().split("\n")[-1], "| demo:", (b.stdout + b.stderr).strip().split("\n")[-1][:120])
    finally: shutil.rmtree(d)

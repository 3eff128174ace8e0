#!/usr/bin/env python3
"""emut.py Cnn FILE 'old' 'new': runs the deductive engine of Cnn on a copy of /repo with one textual change (engine self-test)"""
import sys, os, shutil, subprocess, tempfile
pid, file, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix="emut"); shutil.copytree("/repo/robpy", d + "/robpy")
p = os.path.join(d, "robpy", file); s = open(p).read(); assert s.count(old) >= 1, "text not found"
open(p, "w").write(s.replace(old, new, 1))
r = subprocess.run(["python3-vt", "/verif/engine/main.py", pid] + sys.argv[5:], env=dict(os.environ, ROBPY_SRC=d), capture_output=True, text=True)
print(r.stdout[:1800], r.stderr[-800:]); shutil.rmtree(d)

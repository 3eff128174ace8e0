#!/usr/bin/env python3
"""writes MANIFEST.json; a property is claimed as proof when engine/o_cNN.py exists and NOTES says what is proved"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = "real arithmetic instead of floating point; numpy/scipy/pandas/sklearn replaced by assumed contracts (listed in the evidence); the same contracts are evaluated at run time on the real package (bounded), which also supplies the failing input when an obligation fails"
NOTES = {
 "C03": "proved for all inputs for the univariate estimators except the Qn scale (run-time contracts, bounded)",
 "C05": "proved for every n, h and sample; the step from 'minimal among windows' to 'minimal among all h-subsets' is a textbook lemma, assumed",
 "C06": "proved for every x and every admissible tuning constant (transcendental functions by their characterising axioms)",
 "C07": "proved for every cell and every admissible b, c",
 "C08": "proved for every number of rows and columns, over any column estimator satisfying its contract",
 "C09": "proved for every lambda and every admissible x",
 "C11": "proved for every n, p and alpha, on each estimator's own subset-size code",
 "C26": "proved for every number of columns and rows, medcouple taken from its contract",
}
exec(open(os.path.join(HERE, "tools", "notes.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "notes.py")) else None
BNOTE = "the contracts are evaluated at run time on the real functions over generated inputs: bounded, nothing is proved for all inputs"
checks = []
for i in range(1, 30):
    p = f"C{i:02d}"; eng = os.path.exists(os.path.join(HERE, "engine", f"o_{p.lower()}.py")) and p in NOTES
    part = eng and NOTES[p].startswith("partly")
    checks.append(dict(property=p, quick_cmd=f"python3-vt check.py {p}", thorough_cmd=f"python3-vt check.py {p} --tier thorough",
        technique="contracts on the real functions, obligations generated from /repo's source on every run and discharged deductively" if eng else "contracts on the real functions evaluated at run time (bounded stand-in)",
        level="proof" if eng and not part else "exploration", level_note=(NOTES[p] + "; " + COMMON) if eng else BNOTE + ("; " + NOTES[p] if p in NOTES else "")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=[]), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

"""writes MANIFEST.json from the table below"""
import json
P = "contract-based deductive verification: Verus discharges contracts on the functions extracted from /repo on every run; besides, bounded differential runs of the real macro (labelled stand-in, and search for a failing input)"
B = "contract-based deductive verification: Verus discharges contracts on the functions extracted from /repo on every run; for the functions out of its reach, bounded differential runs of the real macro (labelled stand-in)"
LEVEL = {}
NOTE = {}
exec(open("levels.py").read())
checks = []
for i in range(1, 17):
    p = "C%02d" % i
    if p not in LEVEL:
        continue
    checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py " + p, "technique": P if LEVEL[p] == "proof" else B,
                   "level": LEVEL[p], "level_note": NOTE[p]})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": NA,
     "notes": "Every check first redoes the deductive part (extraction of /repo's current functions, Verus on every unit the property depends on) and then the bounded part."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)

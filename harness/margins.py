"""margins.py <trace> <property>: how much of each tolerance the accepted answers use, per session name and clause (for calibration)."""
import collections
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import tlc
from fix import unfix

r = tlc.run("Trace", "Trace.cfg", env={"TRACE": os.path.abspath(sys.argv[1]), "VERBOSE": "1"}, subst={"@PROP@": sys.argv[2]})
ev = {}
for l in open(sys.argv[1]):
    s = json.loads(l)
    ev[s["id"]] = s["ev"]
st = collections.defaultdict(list)
for m in tlc.messages(r["out"], "OK") + tlc.messages(r["out"], "BAD"):
    if isinstance(m["tol"], list) and isinstance(m["got"], list) and isinstance(m["want"], list):
        t = unfix(m["tol"])
        if t > 0:
            st[m["id"].split("/")[0], m["c"]].append((abs(unfix(m["got"]) - unfix(m["want"])) / t, unfix(m["want"]), t, m["id"]))
for k, v in sorted(st.items()):
    v.sort()
    scale = sorted(x[2] / (abs(x[1]) + 1e-300) for x in v)
    print("%-55s n=%5d  used: median %.2e  99%% %.3f  max %.3f (%s) | tol/want median %.1e" % (
        " ".join(k), len(v), v[len(v) // 2][0], v[int(len(v) * .99)][0], v[-1][0], v[-1][3], scale[len(v) // 2]))

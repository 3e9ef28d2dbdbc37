"""check.py <property> [--tier quick|thorough]: decides one property (see DESIGN.md)."""
import argparse
import json
import multiprocessing
import os
import random
import shutil
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, "/repo/src")
os.environ.setdefault("MPLBACKEND", "Agg")
for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS"):
    os.environ[v] = "1"
sys.dont_write_bytecode = True

import tlc
from fix import unfix


def _worker(prog):
    import rec
    return json.dumps(rec.run(prog))


def human(x):
    """Tagged values and fixed-point tuples as readable numbers."""
    if isinstance(x, list) and len(x) == 2 and x[0] in (-1, 0, 1) and isinstance(x[1], list) and all(isinstance(i, int) for i in x[1]):
        return unfix(x)
    if isinstance(x, list):
        return [human(i) for i in x]
    if isinstance(x, dict):
        if x.get("k") == "num":
            return unfix(x["v"])
        if x.get("k") in ("int", "str", "bool"):
            return x.get("n", x.get("s", x.get("b")))
        if x.get("k") == "arr":
            return [human(i) for i in x["a"]]
        return {k: human(v) for k, v in x.items()}
    return x


def record(progs, path):
    import rec
    rec.classes()
    import suites
    suites.register()
    with multiprocessing.get_context("fork").Pool(8) as pool, open(path, "w") as f:
        n = 0
        for line in pool.imap_unordered(_worker, progs, chunksize=max(1, min(16, len(progs) // 64))):
            f.write(line + "\n")
            n += 1
    return n


def load_known(prop):
    res = []
    p = os.path.join(ROOT, "known_findings.json")
    if os.path.exists(p):
        for k in json.load(open(p))["findings"]:
            if k.get("status") == "known" and k["property"] == prop:
                res.append(k)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--keep", help="keep the recorded trace at this path")
    ap.add_argument("--only", help="only sessions whose id contains this")
    ap.add_argument("--nodesign", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import suites
    suite = suites.SUITES[a.prop]
    work = tempfile.mkdtemp(prefix="chk-")
    os.environ["MPLCONFIGDIR"] = os.path.join(work, "mpl")
    try:
        states = transitions = 0
        notes, viols, times = [], [], {}
        # 1. the specification itself: design models and generated scenarios
        ctx = suites.Context(a.prop, tier, seed, work)
        if not a.nodesign:
            for name, r in suite.design(ctx):
                states += r["states"]
                transitions += r["transitions"]
                notes.append("%s: %d states, %d transitions" % (name, r["states"], r["transitions"]))
                if not r["ok"]:
                    raise tlc.MachineryError("design model %s failed:\n%s" % (name, r["raw"][-6000:]))
        times["design"] = round(time.time() - t0, 1)
        # 2. programs from those scenarios, run on the real code
        progs = suite.programs(ctx)
        for k, p in enumerate(progs):
            p["id"] = "%s/%d" % (p.get("id", "s"), k)
        if a.only:
            progs = [p for p in progs if a.only in p["id"]]
        times["generate"] = round(time.time() - t0, 1)
        states += ctx.states
        transitions += ctx.transitions
        path = os.path.join(work, "trace.ndjson")
        n = record(progs, path)
        times["record"] = round(time.time() - t0, 1)
        if a.keep:
            shutil.copy(path, a.keep)
        # 3. the recorded sessions against the specification
        r = tlc.run("Trace", "Trace.cfg", env={"TRACE": path}, subst={"@PROP@": a.prop})
        times["judge"] = round(time.time() - t0, 1)
        if not r["ok"]:
            raise tlc.MachineryError("trace validation failed:\n" + r["raw"][-6000:])
        done = tlc.messages(r["out"], "DONE")
        bad = tlc.messages(r["out"], "BAD")
        if len(done) != n or n == 0:
            raise tlc.MachineryError("%d sessions judged of %d" % (len(done), n))
        states += r["states"]
        transitions += r["transitions"]
        judged = sum(d["cnt"] for d in done)
        if judged == 0:
            raise tlc.MachineryError("nothing judged")
        # on the unchanged tree no relation is malformed: when one is, the code's answers made it so
        sessions = {}
        samples = []
        ids = {b["id"] for b in bad}
        with open(path) as f:
            for k, line in enumerate(f):
                if k < 2 or ids:
                    s = json.loads(line)
                    if s["id"] in ids:
                        sessions[s["id"]] = s
                    if k < 2:
                        samples.append({"session": s["id"], "events": [human(e) for e in s["ev"][:4]]})
        # 4. verdicts
        known = load_known(a.prop)
        hit = set()
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        byid = {p["id"]: p for p in progs}
        reported = {}
        for b in bad:
            s = sessions[b["id"]]
            e = s["ev"][b["line"] - 1]
            k = suites.match_known(known, s, b, e)
            if k is not None:
                hit.add(k["id"])
                continue
            reported.setdefault(b["id"], []).append(b)
        for k in known:
            if k["id"] in hit:
                print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
        for i, (sid, bs) in enumerate(sorted(reported.items())):
            rp = os.path.join(ROOT, "replays", "%s-%s-%d.json" % (a.prop, tier, i))
            if i < 40:
                with open(rp, "w") as f:
                    json.dump({"property": a.prop, "seed": seed, "session": sid, "verdicts": [human(b) for b in bs],
                               "readable": [human(e) for e in sessions[sid]["ev"]], "events": sessions[sid]["ev"]}, f, indent=1)
            if i < 20:
                b = bs[0]
                print("VIOLATION property=%s replay=%s" % (a.prop, rp))
                print("  session %s line %d clause %s: got %s want %s tol %s" % (
                    sid, b["line"], b["c"], json.dumps(human(b["got"]))[:300], json.dumps(human(b["want"]))[:300], human(b["tol"])))
        if len(reported) > 20:
            print("... and %d more sessions" % (len(reported) - 20))
        cov = {"states": states, "transitions": transitions, "traces_validated_against_impl": n,
               "clauses_judged": judged, "clauses_failed": len(bad), "samples": samples,
               "design_models": notes, "scenario_points_from_spec": ctx.points, "seconds": times,
               "violating_sessions": len(reported), "known_findings_seen": sorted(hit)}
        ev = {"property": a.prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
              "assumptions": suite.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(reported)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d sessions, %d clauses judged, %d failed, %d states; %.1f s %s" % (
            a.prop, tier, n, judged, len(bad), states, time.time() - t0, times))
        return 1 if reported else 0
    except tlc.MachineryError as ex:
        print("ERROR: %s" % ex)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())

"""The machinery checked against itself (not a check of the repository):

1. FixNum/RealMath in plain TLA+ and through the Java overrides give identical results;
2. binding: recorded sessions with one answer altered are rejected by trace validation (`selftest.py bind`).
"""
import json
import os
import random
import subprocess
import sys
import tempfile

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import tlc


def arithmetic(n=400):
    res = []
    for ov in (False, True):
        r = tlc.run("SelfTest", "SelfTest.cfg", workers=1, subst={"@NS@": str(n)}, overrides=ov, timeout=3000)
        if not r["ok"]:
            print(r["raw"][-3000:])
            return False
        body = r["raw"][r["raw"].index("Finished computing initial states"):]
        body = body[:body.index("Model checking completed")]
        res.append([l for l in body.splitlines() if not l.startswith("Progress(") and "initial states" not in l])
    same = res[0] == res[1]
    print("arithmetic: %d lines of results, %s" % (len(res[0]), "identical" if same else "DIFFERENT"))
    return same


def nums(x, path=()):
    """Paths of the numbers in a result."""
    if isinstance(x, dict):
        if x.get("k") == "num":
            yield path
        else:
            for k, v in x.items():
                yield from nums(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from nums(v, path + (i,))


def bind(props, per=60, size=0.02):
    """One recorded number per session moved by 2 %: how many sessions are rejected?"""
    from fix import fix, unfix
    rng = random.Random(7)
    for p in props:
        work = tempfile.mkdtemp(prefix="bind-")
        keep = os.path.join(work, "t.ndjson")
        subprocess.run([sys.executable, os.path.join(HERE, "check.py"), p, "--nodesign", "--keep", keep], capture_output=True)
        ses = [json.loads(l) for l in open(keep)]
        rng.shuffle(ses)
        out = []
        for s in ses:
            spots = [(i,) + q for i, e in enumerate(s["ev"]) if e["a"] in ("call", "fn") for q in nums(e.get("r"), ("r",))]
            rng.shuffle(spots)
            for q in spots:
                o = s["ev"]
                for k in q:
                    o = o[k]
                if o["v"][0] == 0:
                    continue
                o["v"] = fix(unfix(o["v"]) * (1 + size) + 1e-3)
                out.append(s)
                break
            if len(out) == per:
                break
        path = os.path.join(work, "m.ndjson")
        with open(path, "w") as f:
            f.write("".join(json.dumps(s) + "\n" for s in out))
        r = tlc.run("Trace", "Trace.cfg", env={"TRACE": path}, subst={"@PROP@": p})
        bad = {b["id"] for b in tlc.messages(r["out"], "BAD")}
        print("%s: %d of %d altered sessions rejected" % (p, len(bad), len(out)), "" if r["ok"] else r["raw"][-500:])
        subprocess.run(["rm", "-rf", work])


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "bind":
        bind(sys.argv[2:] or ["C%02d" % i for i in range(1, 27)])
    else:
        sys.exit(0 if arithmetic(int(sys.argv[1]) if len(sys.argv) > 1 else 400) else 1)

"""Running TLC on the modules of /verif/spec."""
import json
import os
import re
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, "build")
JARS = "/opt/veriftools/tla"


class MachineryError(Exception):
    pass


def ensure_overrides():
    src = os.path.join(ROOT, "java", "finover", "FixNum.java")
    cls = os.path.join(BUILD, "finover", "FixNum.class")
    if os.path.exists(cls) and os.path.getmtime(cls) >= os.path.getmtime(src):
        return
    os.makedirs(BUILD, exist_ok=True)
    r = subprocess.run(["javac", "-nowarn", "-cp", JARS + "/tla2tools.jar", "-d", BUILD, src],
                       capture_output=True, text=True)
    if r.returncode:
        raise MachineryError("javac: " + r.stderr)


def run(module, cfg, env=None, workers=8, extra=(), subst=None, overrides=True, timeout=800, heap="6g"):
    """Returns {"states", "distinct", "out": lines printed by the spec, "raw", "error"}."""
    ensure_overrides()
    work = tempfile.mkdtemp(prefix="tlc-")
    try:
        text = open(os.path.join(SPEC, cfg)).read()
        for k, v in (subst or {}).items():
            text = text.replace(k, v)
        cfgp = os.path.join(work, module + ".cfg")
        open(cfgp, "w").write(text)
        cp = ":".join([JARS + "/tla2tools.jar", JARS + "/CommunityModules-deps.jar", BUILD])
        cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-DTLA-Library=" + SPEC, "-cp", cp]
        if overrides:
            cmd.append("-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:finover.FixNum")
        cmd += ["tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", os.path.join(work, "states"), "-config", cfgp]
        cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, env=e, cwd=work, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timed out on %s" % module)
        raw = r.stdout + r.stderr
        out = [l for l in raw.splitlines() if l.startswith('"@') or l.startswith("<<")]
        m = None
        for m in re.finditer(r"([\d,]+) states generated(?: \([^)]*\))?,? ([\d,]+) distinct states found", raw):
            pass
        gen = int(m.group(1).replace(",", "")) if m else 0
        dis = int(m.group(2).replace(",", "")) if m else 0
        ok = r.returncode == 0 and ("No error has been found" in raw or "-simulate" in extra)
        return {"states": dis, "transitions": gen, "out": out, "raw": raw, "ok": ok, "rc": r.returncode}
    finally:
        shutil.rmtree(work, ignore_errors=True)


def messages(out, tag):
    """JSON payloads of PrintT("@TAG" \\o ToJson(..)) lines."""
    res = []
    pre = '"@' + tag
    for l in out:
        if l.startswith(pre):
            body = l[len(pre):]
            body = body[:-1] if body.endswith('"') else body
            res.append(json.loads(body.replace('\\"', '"').replace("\\\\", "\\")))
    return res

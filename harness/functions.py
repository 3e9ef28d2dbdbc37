"""Recorded calls that are more than one method call: reports, plots, simulation.

Each returns (raw result, extra fields of the event).  Texts are only taken apart here (by their
layout); what they have to say is in Reports.tla and Sim.tla.
"""
import io
import random
import re
import warnings
from contextlib import redirect_stdout

import numpy as np

from rec import FUNCTIONS, enc
from wording import put


def function(f):
    FUNCTIONS[f.__name__] = f
    return f


class Tagged(dict):
    """Already a tagged value."""


# --------------------------------------------------------------------------- reports
def shown(s):
    s = s.strip()
    if s == "None":
        return {"k": "none", "x": 0}
    if s.startswith("["):
        parts = s.strip("[]").split("...")
        el = [[shown(x) for x in p.split()] for p in parts]
        return {"k": "shown", "l": el[0], "t": el[-1] if len(el) > 1 else [], "ell": len(el) > 1}
    try:
        return enc(int(s))
    except ValueError:
        pass
    try:
        return enc(float(s))
    except ValueError:
        return {"k": "str", "s": s}


def lines_of(text):
    """Lines, with arrays that were wrapped put together again."""
    res = []
    for l in text.split("\n"):
        if res and res[-1].count("[") > res[-1].count("]"):
            res[-1] += " " + l
        else:
            res.append(l)
    return res


def parse_summary(text):
    rep = {"kind": "summary", "title": "", "names": [], "vals": [], "prices": [], "flag": {"k": "none", "x": 0}, "junk": []}
    mode = None
    for l in lines_of(text):
        s = l.strip()
        if not s:
            continue
        if s.startswith("Title: ") and not rep["title"]:
            rep["title"] = s[7:]
        elif s == "Parameters:":
            mode = "p"
        elif s == "Option Price:":
            mode = "v"
        elif s.startswith("Optimal to Exercise Call Option: "):
            v = s.split(": ")[1]
            rep["flag"] = {"k": "bool", "b": v == "True"} if v in ("True", "False") else {"k": "str", "s": v}
        elif mode == "p" and " = " in s:
            n, v = s.split(" = ", 1)
            rep["names"].append(n)
            rep["vals"].append(shown(v))
        elif mode == "v" and ": " in s:
            n, v = s.split(": ", 1)
            m = re.fullmatch(r"(.*), trigger: (\S+)", v)
            rep["prices"].append({"label": n, "v": shown(m.group(1) if m else v),
                                  "trigger": shown(m.group(2)) if m else {"k": "none", "x": 0}})
        else:
            rep["junk"].append(s)
    return rep


def parse_repr(text):
    m = re.fullmatch(r"(\w+)\((.*)\)", text.strip(), re.S)
    if not m:
        return {"kind": "repr", "name": text[:60], "vals": []}
    vals, depth, cur = [], 0, ""
    for ch in m.group(2):
        depth += (ch == "[") - (ch == "]")
        if ch == "," and depth == 0:
            vals.append(cur)
            cur = ""
        else:
            cur += ch
    return {"kind": "repr", "name": m.group(1), "vals": [shown(v.replace("\n", " ")) for v in vals + [cur]]}


@function
def report(heap, h, how):
    o = heap[h]
    out = io.StringIO()
    with redirect_stdout(out):
        if how == "text":
            r = put(o.summary, "summary", printer=False)
        elif how == "str":
            r = str(o)
        elif how == "repr":
            r = repr(o)
        elif how == "print":
            print(o)
            r = ""
        else:
            r = put(o.summary, "summary", printer=True)
    if how == "repr":
        return "ok", {"rep": parse_repr(r)}
    text = r if how in ("text", "str") else out.getvalue()
    rep = parse_summary(text)
    rep["how"] = how
    rep["ret"] = "None" if r is None else "text"
    if how in ("text", "str") and out.getvalue():
        rep["junk"].append(out.getvalue()[:200])
    return "ok", {"rep": rep}


@function
def plot(heap, h, call, digits, dx, dy):
    from matplotlib import pyplot as plt
    try:
        fig = put(heap[h].plot, "plot", call=call, digits=digits, dx=dx, dy=dy, figsize=(2, 2))
        ax = fig.axes[0]
        labels = []

        def whole(x):
            return int(round(x)) if abs(x - round(x)) < 1e-6 else -9999
        for t in ax.texts:
            x, y = t.get_position()
            labels.append({"x": whole(x - dx), "y": whole(y - dy), "v": shown(t.get_text())})
        edges = set()
        for l in ax.lines:
            pts = [(whole(x), whole(y)) for x, y in zip(l.get_xdata(), l.get_ydata())]
            for a, b in zip(pts, pts[1:]):
                edges.add(min(a, b) + max(a, b))
        return "ok", {"rep": {"labels": labels, "edges": sorted(list(e) for e in edges)}}
    finally:
        plt.close("all")


# --------------------------------------------------------------------------- Monte Carlo
def mc_classes():
    import finoptions.monte_carlo_options as mc
    return mc


def seen(x):
    """What a plug-in was given; no engine has a reason for thousands of numbers here"""
    x = np.array(x)
    return enc(x) if x.size <= 6000 else {"k": "other", "s": "array of %d numbers" % x.size}


@function
def engine(heap, key, m, mc_loops, path_length, mc_paths, S, K, t, r, b, sigma, antithetic, standardization, trace, eps, special, at):
    """One call()/put() of an option whose plug-ins record what the engine does with them."""
    mc = mc_classes()
    name = "engine%s" % key
    if name not in heap:
        log = {"inits": [], "samples": [], "paths": [], "payoffs": [], "evals": [], "n": 0}
        rng = np.random.default_rng(key)

        class Inno(mc.Innovations):
            def __init__(self, mc_paths, path_length, eps=None):
                super().__init__(mc_paths, path_length, eps)
                log["inits"].append({"paths": enc(mc_paths), "len": enc(path_length), "eps": enc(eps)})

            def sample_innovation(self, *a, **k):
                x = self._eps if self._eps is not None else rng.normal(size=(self.mc_paths, self.path_length)) + 0.25
                log["samples"].append(seen(x))
                return x

        class APath(mc.Path):
            def __init__(self, *a, **k):
                super().__init__(*a, **k)
                log["n"] += 1
                self.id = log["n"]
                log["paths"].append({"eps": seen(self.epsilon), "sigma": enc(self.sigma), "dt": enc(self.dt), "b": enc(self.b), "id": self.id})

            def generate_path(self):
                return self.epsilon

        class APayoff(mc.Payoff):
            def __init__(self, *a, **k):
                super().__init__(*a, **k)
                log["n"] += 1
                self.id = log["n"]
                log["payoffs"].append({"path": getattr(self.path, "id", 0), "id": self.id,
                                       "par": {x: enc(getattr(self, x)) for x in ("S", "K", "t", "r", "b", "sigma")}})

            def value(self, m):
                v = np.array(self.path.generate_path()).sum(axis=1) * (1 if m == "call" else -2) + self.S
                if special is not None and len(log["evals"]) + 1 == at:
                    v[-1] = float(special)
                log["evals"].append({"payoff": self.id, "m": m, "v": seen(v)})
                return v

            def call(self):
                return self.value("call")

            def put(self):
                return self.value("put")

        o = put(mc.MonteCarloOption, "MonteCarloOption", mc_loops=mc_loops, path_length=path_length, mc_paths=mc_paths, S=S, K=K, t=t, r=r, b=b,
                sigma=sigma, Innovation=Inno, Path=APath, Payoff=APayoff, trace=trace, antithetic=antithetic,
                standardization=standardization, eps=eps)
        heap[name] = (o, log)
    else:
        log = heap[name][1]
        for k in ("inits", "samples", "paths", "payoffs", "evals"):
            log[k] = []
    o = heap[name][0]
    out = io.StringIO()
    with warnings.catch_warnings(record=True) as w, redirect_stdout(out):
        warnings.simplefilter("always")
        raw = o.call() if m == "call" else o.put()
    rep = {k: log[k] for k in ("inits", "samples", "paths", "payoffs", "evals")}
    rep["warned"] = any("Inf" in str(x.message) for x in w)
    rep["trace"] = [{"no": enc(int(a)), "v": shown(b_), "run": shown(c)}
                    for a, b_, c in re.findall(r"Loop:\s+(\d+)\s+:\s+(\S+)\s+(\S+)", out.getvalue())]
    extra = {"rep": rep}
    if isinstance(raw, tuple):
        raw = Tagged(k="inf loop", eps=seen(raw[0]), path=getattr(raw[1], "id", 0), payoff=seen(raw[2]))
    return raw, extra


@function
def wiener(heap, eps, sigma, dt, b):
    return put(mc_classes().WienerPath, "WienerPath", epsilon=eps, sigma=sigma, dt=dt, b=b).generate_path()


@function
def payoff(heap, kind, inc, S, K, t, r, b, sigma):
    mc = mc_classes()

    class Given(mc.Path):
        def generate_path(self, **k):
            return inc

    dt = t / inc.shape[1]
    eps = (inc - (b - sigma ** 2 / 2) * dt) / (sigma * dt ** 0.5)       # what the path would have been made from
    p = put(getattr(mc, kind), "payoff", path=Given(eps, sigma, dt, b), S=S, K=K, t=t, r=r, b=b, sigma=sigma)
    c, u = p.call(), p.put()
    return "ok", {"rep": {"call": enc(np.array(c)), "put": enc(np.array(u))}}


@function
def mc(heap, kind, m, eps, mc_loops, path_length, mc_paths, S, K, t, r, b, sigma, antithetic, standardization):
    c = mc_classes()
    o = put(c.MonteCarloOption, "MonteCarloOption", mc_loops=mc_loops, path_length=path_length, mc_paths=mc_paths, S=S, K=K, t=t, r=r, b=b, sigma=sigma,
            Innovation=c.NormalSobolInnovations, Path=c.WienerPath, Payoff=getattr(c, kind), trace=False, antithetic=antithetic,
            standardization=standardization, eps=eps)
    return o.call() if m == "call" else o.put()


@function
def innovations(heap, key, mc_paths, path_length, scramble, eps, faults, kind):
    """One sample; the first `faults` draws of the generator are spoilt.  The object is kept under `key`."""
    from scipy.stats import qmc
    c = mc_classes()
    n = {"draws": 0}
    orig = qmc.Sobol.random

    def spoilt(self, *a, **k):
        x = orig(self, *a, **k)
        n["draws"] += 1
        if n["draws"] <= faults:
            x = np.array(x)
            x[n["draws"] % x.shape[0], (7 * n["draws"]) % x.shape[1]] = {"low": 0.0, "high": 1.0, "nan": float("nan")}[kind]
        return x

    name = "innovations%s" % key
    if name not in heap:
        heap[name] = put(c.NormalSobolInnovations, "NormalSobolInnovations", mc_paths=mc_paths, path_length=path_length, eps=eps)
    o = heap[name]
    if faults:
        qmc.Sobol.random = spoilt
    try:
        r = put(o.sample_innovation, "sample_innovation", scramble=scramble)
    finally:
        qmc.Sobol.random = orig
    return np.array(r), {"rep": {"draws": n["draws"]}}


# --------------------------------------------------------------------------- Heston-Nandi GARCH
@function
def hnsim(heap, lamb, omega, alpha, beta, gamma, rf, n, n_start, inno, inno_start, seed):
    from finoptions.heston_nandi_options import hngarch_sim
    kw = {}
    if inno is not None:
        kw["inno"] = np.array(inno)
    if inno_start is not None:
        kw["inno_start"] = np.array(inno_start)
    np.random.seed(seed)
    x = put(hngarch_sim, "hngarch_sim", lamb=lamb, omega=omega, alpha=alpha, beta=beta, gamma=gamma, rf=rf, n=n, n_start=n_start, **kw)
    return np.array(x), {"rep": {"inno": enc(kw.get("inno")), "inno_start": enc(kw.get("inno_start"))}}


@function
def hnfit(heap, x, lamb, omega, alpha, beta, gamma, rf, symmetric, maxiter, trace):
    from finoptions.heston_nandi_options import hngarch_fit
    y = np.array(x)
    kw = {k: v for k, v in dict(omega=omega, alpha=alpha).items() if v is not None}
    if maxiter:
        kw["options"] = {"maxiter": maxiter}
    out = io.StringIO()
    with redirect_stdout(out):
        o = put(hngarch_fit, "hngarch_fit", x=y, lamb=lamb, beta=beta, gamma=gamma, rf=rf, symmetric=symmetric, trace=trace, **kw)
    rep = {k: enc(np.array(o[k]) if k in ("estimate", "h", "z") else o[k]) for k in ("value", "estimate", "h", "z", "persistence", "sigma2", "minimum")}
    rep["model"] = {k: enc(v) for k, v in o["model"].items()}
    rep["x"] = enc(y)
    said = out.getvalue()
    rows = [[shown(v) for v in l.split()] for l in re.findall(r"Parameter Estimate\s*\n([^\n]*)", said)]
    rep["said"] = {"silent": not said, "n": len(rows), "rows": rows[:1] + rows[-1:]}
    return "ok", {"rep": rep}

"""Monte Carlo (C17-C19) and Heston-Nandi GARCH (C20, C21)."""
import math

import numpy as np

import tlc
from gen import *
from suites import Prog, suite


def matrix(rng, n, m, scale=1.0):
    return np.array([[rng.gauss(0, 1) * scale for _ in range(m)] for _ in range(n)])


def market(rng):
    S = rng.choice([1.0, 100.0, 2500.0]) * rng.uniform(0.7, 1.3)
    return dict(S=S, K=S * rng.uniform(0.7, 1.4), t=rng.uniform(0.02, 2), r=rng.choice([0.0, rng.uniform(-0.02, 0.12)]),
                b=rng.choice([0.0, rng.uniform(-0.05, 0.12)]), sigma=rng.uniform(0.05, 0.9))


def wild(rng, p):
    """sometimes far from the ordinary: paths that end many times above or below their start"""
    if rng.random() < 0.12:
        p.update(sigma=rng.uniform(0.9, 2.5), t=rng.uniform(1, 9), b=rng.uniform(-0.6, 1.5), r=rng.uniform(-0.1, 0.5))
    if rng.random() < 0.1:
        p["K"] = p["S"] * 10 ** rng.uniform(-3, 3)
    return p


def whole(rng, p):
    """some parameters as integers"""
    q = dict(p)
    for x in ("S", "K", "t"):
        if rng.random() < 0.5:
            q[x] = max(1, round(q[x]))
    return q


# ---------------------------------------------------------------------------
def engine_design(ctx):
    r = tlc.run("MCEngine", "MCEngine.cfg", subst={"@LOOPS@": "3", "@WRONG@": "FALSE"})
    ctx.engine = sorted({repr(sorted(c.items())): c for c in tlc.messages(r["out"], "CF")}.items())
    yield "MCEngine", r
    r2 = tlc.run("MCEngine", "MCEngine.cfg", subst={"@LOOPS@": "2", "@WRONG@": "TRUE"})
    r2["ok"] = "Invariant Order is violated" in r2["raw"]
    yield "MCEngine standardising first (must fail)", r2


@suite("C17", design=engine_design)
def c17(ctx):
    rng = ctx.rng
    if not hasattr(ctx, "engine"):
        list(engine_design(ctx))
    cfgs = [c for _, c in ctx.engine]
    ctx.points += len(cfgs)
    progs = []
    for k, c in enumerate(cfgs if not ctx.quick else rng.sample(cfgs, 1500)):
        P = Prog("engine loops=%d %s%s%s%s%s" % (c["loops"], "anti " if c["anti"] else "", "std " if c["std"] else "", "trace " if c["trace"] else "",
                                                "eps " if c["eps"] else "", c["special"]))
        q = dict(key=k + 1, mc_loops=c["loops"], path_length=c["len"], mc_paths=c["paths"], antithetic=c["anti"], standardization=c["std"],
                 trace=c["trace"], eps=matrix(rng, c["paths"], c["len"]) + 0.3 if c["eps"] else None,
                 special=None if c["special"] == "none" else c["special"], at=c["at"], **whole(rng, market(rng)))
        for m in (c["m1"], c["m2"]):
            P.fn("engine", m=m, **q)
        progs.append(P.done())
    for k in range(ctx.n(60, 800)):                       # larger
        n, l = rare(rng, rng.randint(2, 12), lambda: rng.randint(30, 150), chance=0.3), rng.randint(1, 9)
        P = Prog("engine larger")
        P.fn("engine", m=rng.choice(["call", "put"]), key=100000 + k, mc_loops=rng.randint(1, 12), path_length=l, mc_paths=n,
             antithetic=rng.random() < 0.5, standardization=rng.random() < 0.5, trace=rng.random() < 0.5,
             eps=matrix(rng, rng.choice([n, n, n + 1, 2]), l, rng.choice([0.01, 1, 30])) if rng.random() < 0.4 else None, special=None, at=1, **market(rng))
        progs.append(P.done())
    return progs


# ---------------------------------------------------------------------------
@suite("C18")
def c18(ctx):
    rng = ctx.rng
    progs = []
    for _ in range(ctx.n(500, 5000)):
        p = wild(rng, market(rng))
        if rng.random() < 0.3:
            p = whole(rng, p)
        l = rng.choice([1, 2, 5, 12])
        n = rare(rng, rng.randint(1 if l > 1 else 2, 10), lambda: 60, lambda: 150, chance=0.03)
        P = Prog("paths")
        e = matrix(rng, n, l)
        if rng.random() < 0.1:
            e[rng.randrange(n), rng.randrange(l)] = rng.choice([0.0, 8.0, -8.0])
        P.fn("wiener", eps=e, sigma=p["sigma"], dt=p["t"] / l, b=p["b"])
        progs.append(P.done())
    for kind in ("PlainVanillaPayoff", "ArithmeticAsianPayoff"):
        for _ in range(ctx.n(400, 4000)):
            p = wild(rng, market(rng))
            if rng.random() < 0.3:
                p = whole(rng, p)
            l = rng.choice([1, 2, 3, 8, 20])
            n = rng.randint(1 if l > 1 else 2, 8)
            inc = matrix(rng, n, l, p["sigma"] * math.sqrt(p["t"] / l))
            P = Prog(kind)
            P.fn("payoff", kind=kind, inc=inc, **p)
            progs.append(P.done())
        for _ in range(ctx.n(200, 2000)):
            p = wild(rng, market(rng))
            if rng.random() < 0.3:
                p = whole(rng, p)
            l = rng.choice([1, 2, 3, 8])
            n = rare(rng, rng.randint(1 if l > 1 else 2, 8), lambda: rng.randint(30, 150), chance=0.05)
            P = Prog("end to end " + kind)
            for m in ("call", "put"):
                P.fn("mc", kind=kind, m=m, eps=matrix(rng, n, l), mc_loops=rng.randint(1, 3), path_length=l, mc_paths=n,
                     antithetic=rng.random() < 0.5, standardization=rng.random() < 0.5, **p)
            progs.append(P.done())
    return progs


# ---------------------------------------------------------------------------
@suite("C19")
def c19(ctx):
    rng = ctx.rng
    progs = []
    dims = [1, 2, 3, 4, 5, 7, 8, 11, 16] + ([] if ctx.quick else [6, 9, 10, 12, 13, 14, 15])
    for d in dims:
        for n in ([1, 2, 3, 5, 8, 17, 64, 100] if ctx.quick else [1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 33, 64, 100, 255, 512, 1000]):
            if n == 1 and d == 1:
                continue
            P = Prog("unscrambled %d x %d" % (n, d))
            for again in range(1 + (n <= 17) * rng.randint(0, 2)):      # a second sample is the same
                P.fn("innovations", key=1, mc_paths=n, path_length=d, scramble=False, eps=None, faults=0, kind="low")
                if rng.random() < 0.3 and n > 1:
                    P.fn("innovations", key=1, mc_paths=n, path_length=d, scramble=True, eps=None, faults=0, kind="low")
            progs.append(P.done())
    for d in dims + [24, 40, 130, 260]:
        for k in ([1, 3] if d > 100 else [1, 3, 6, 8] if ctx.quick else [1, 2, 3, 4, 5, 6, 7, 8, 9, 10]):
            for _ in range(ctx.n(1, 4)):
                P = Prog("scrambled 2^%d x %d" % (k, d))
                for again in range(1 + (k <= 6)):
                    P.fn("innovations", key=1, mc_paths=2 ** k, path_length=d, scramble=True, eps=None, faults=0, kind="low")
                progs.append(P.done())
    for _ in range(ctx.n(60, 600)):             # spoilt draws are thrown away whole
        d, k = rng.choice([1, 2, 5, 8]), rng.choice([1, 2, 3, 5])
        P = Prog("spoilt draws")
        for kind in ("low", "high", "nan"):
            P.fn("innovations", key=1, mc_paths=2 ** k, path_length=d, scramble=True, eps=None, faults=rng.choice([1, 1, 2, 3]), kind=kind)
        progs.append(P.done())
    for _ in range(ctx.n(20, 200)):             # not a power of two
        d, n = rng.choice([1, 2, 5, 8]), rng.choice([3, 5, 6, 12, 33])
        P = Prog("scrambled %d x %d" % (n, d))
        P.fn("innovations", key=1, mc_paths=n, path_length=d, scramble=True, eps=None, faults=0, kind="low")
        progs.append(P.done())
    for _ in range(ctx.n(20, 100)):             # supplied
        n, l = rng.randint(2, 9), rng.randint(1, 9)
        P = Prog("supplied")
        e = matrix(rng, n, l)
        for s in (True, False):
            P.fn("innovations", key=1, mc_paths=n, path_length=l, scramble=s, eps=e, faults=0, kind="low")
        progs.append(P.done())
    return progs


# ---------------------------------------------------------------------------
def garch(rng, unit_root=0.08):
    while True:
        near = rng.random() < unit_root          # close to the unit root
        beta = 1 - 10 ** rng.uniform(-4.5, -1) if near else rng.uniform(0.0, 0.9)
        gamma = rng.choice([0, 0.0, rng.uniform(-150, 200)])
        alpha = rng.choice([0.0, 1e-6, 5e-6, 5e-5]) * rng.uniform(0.5, 2)
        omega = rng.choice([1e-6, 2e-5, 1e-4]) * rng.uniform(0.5, 2)
        if beta + alpha * gamma * gamma < (0.99996 if near else 0.97):
            return dict(lamb=rng.choice([0, -0.5, rng.uniform(-3, 6)]), omega=omega, alpha=alpha, beta=beta, gamma=gamma,
                        rf=rng.choice([0, 0.0, rng.uniform(-1e-4, 4e-4)]))


@suite("C20")
def c20(ctx):
    rng = ctx.rng
    progs = []
    for k in range(ctx.n(300, 6000)):
        p = garch(rng)
        n = rng.choice([1, 2, 3, 10, 60, 250])
        s = rng.choice([0, 0, 1, 2, 15, 120])
        inno = np.array([rng.gauss(0, 1) for _ in range(n)]) if rng.random() < 0.85 else np.array([rng.randint(-2, 2) for _ in range(n)])
        start = None if s == 0 else np.array([rng.gauss(0, 1) for _ in range(s)])
        P = Prog("given innovations n=%d start=%d" % (n, s))
        P.fn("hnsim", n=n, n_start=s, inno=inno, inno_start=start, seed=k, **p)
        progs.append(P.done())
    for k in range(ctx.n(40, 400)):               # own innovations
        p = garch(rng)
        P = Prog("own innovations")
        P.fn("hnsim", n=rng.choice([2, 5, 30]), n_start=rng.choice([1, 20]), inno=None, inno_start=None, seed=k, **p)
        p["alpha"] = max(p["alpha"], 1e-6)
        P.fn("hnsim", n=rng.choice([400, 900]), n_start=0, inno=None, inno_start=None, seed=k, **p)
        progs.append(P.done())
    for k in range(ctx.n(40, 400)):               # own warm-up before given innovations
        p = dict(garch(rng), lamb=0)
        n = rng.choice([2, 5, 30])
        inno = np.array([rng.choice([-1, 1]) * rng.uniform(0.2, 2) for _ in range(n)])
        P = Prog("own warm-up")
        P.fn("hnsim", n=n, n_start=rng.choice([1, 20]), inno=inno, inno_start=None, seed=k, **p)
        progs.append(P.done())
    return progs


# ---------------------------------------------------------------------------
@suite("C21")
def c21(ctx):
    rng = ctx.rng
    progs = []
    for k in range(ctx.n(500, 3000)):
        g = garch(rng, 0)
        g["alpha"], g["gamma"] = max(g["alpha"], 1e-6), max(-100.0, min(100.0, float(g["gamma"])))
        n = rng.choice([30, 60, 150, rng.randint(3, 12)])
        h = (g["omega"] + g["alpha"]) / (1 - g["alpha"] * g["gamma"] ** 2 - g["beta"])
        x, gen = [], np.random.default_rng(ctx.seed * 1000 + k)
        for z in gen.normal(size=n):
            x.append(g["rf"] + g["lamb"] * h + math.sqrt(h) * z)
            h = g["omega"] + g["alpha"] * (z - g["gamma"] * math.sqrt(h)) ** 2 + g["beta"] * h
        if rng.random() < 0.4:              # a crash, or a day that is far too quiet
            x[rng.randrange(n)] += rng.choice([-1, 1]) * rng.choice([0.0, 6, 12, 20]) * float(np.std(x))
        sym = rng.random() < 0.5
        own = rng.random() < 0.5                # the function's own starting values
        beta, gamma = rng.choice([0.1, 0.5]), rng.choice([0, -40.0, 20.0, 60.0]) if own is False else rng.choice([0, 5.0])
        while beta + gamma ** 2 * float(np.var(x)) * (0.1 if own else 0.02) > 0.9:       # the start is stationary
            gamma /= 2
        P = Prog("fit %s" % ("symmetric" if sym else "with gamma"))
        q = dict(x=np.array(x), lamb=rng.choice([-0.5, 1.0, 2.5]), beta=beta, gamma=gamma,
                 omega=None if own else float(np.var(x)) * 0.3, alpha=None if own else float(np.var(x)) * 0.02,
                 rf=rng.choice([0, 1e-4]), symmetric=sym, maxiter=rng.choice([1, 2, 5, 0 if n < 100 else 10]))
        for trace in rng.choice([[False], [False], [True], [False, True]] if n < 100 else [[False]]):
            P.fn("hnfit", trace=trace, **q)
        progs.append(P.done())
    return progs

"""Prices: the models (C10-C12, C14-C16, C22), lattices (C04, C05, C13), relations between prices (C01, C03, C26)."""
import math

import numpy as np

from gen import *
from suites import Prog, suite


def obj(ctx, P, cls, p, twist=0.2):
    """An object with parameters p: sometimes built with others first, copied, or given some late."""
    rng = ctx.rng
    if cls == HN or rng.random() > twist or any(isinstance(v, np.ndarray) for v in p.values()):
        return P.new(cls, p)
    how = rng.randrange(4)
    num = [x for x in p if x not in DISCRETE and not isinstance(p[x], np.ndarray) and p[x] is not None]
    if how == 0:
        return P.copy(P.new(cls, p))
    q = dict(p)
    names = rng.sample(num, rng.randint(1, min(3, len(num))))
    for x in names:
        q[x] = q[x] * rng.uniform(0.9, 1.0 if x in CORR else 1.1)
    if cls == RGW:
        q["td"] = min(q["td"], 0.95 * q["t"])
        if q["td"] != p["td"] and "td" not in names:
            names.append("td")
    disc = [x for x in p if x in {"n", "type", "otype"}]
    if disc and (how == 1 or rng.random() < 0.3):
        x = rng.choice(disc)
        q[x] = {"n": 3, "type": "american", "otype": "american"}[x]
        names.append(x)
    h = P.new(cls, q)
    if how == 2 or rng.random() < 0.5:
        P.call(h, "call")
    for x in names:
        P.set(h, x, p[x])
    return h


def both(ctx, cls, p, sid=None, what=("call", "put"), twist=0.2, **q):
    P = Prog(sid or cls)
    h = obj(ctx, P, cls, p, twist)
    for m in what:
        P.call(h, m, **q)
    return P.done()


def gbs_points(ctx, quick, thorough, rq, rt):
    base = ctx.scenarios("gbs", quick, thorough)
    pts = base + [jitter(ctx.rng, p, ["S", "K", "t", "r", "b", "sigma"]) for p in base[:: 3]]
    return pts + [rand_gbs(ctx.rng) for _ in range(ctx.n(rq, rt))]


def ms_ok(p):
    a, b, c = p["rhoSE"], p["rhoSF"], p["rhoEF"]
    return p["t"] <= p["T"] and 1 + 2 * a * b * c - a * a - b * b - c * c > 0


def ms_points(ctx, quick, thorough, rq, rt):
    base = [p for p in ctx.scenarios("ms", quick, thorough) if ms_ok(p)]
    return base + [rand_ms(ctx.rng) for _ in range(ctx.n(rq, rt))]


def two_points(ctx, quick, thorough, rq, rt):
    return ctx.scenarios("two", quick, thorough) + [rand_two(ctx.rng) for _ in range(ctx.n(rq, rt))]


def rgw_points(ctx, quick, thorough, rq, rt):
    pts = []
    for p in ctx.scenarios("rgw", quick, thorough):
        q = dict(p)
        q["td"] = q.pop("tdfrac") * q["t"]
        pts.append(q)
    return pts + [rand_rgw(ctx.rng) for _ in range(ctx.n(rq, rt))]


def american_points(ctx, quick, thorough, rq, rt):
    base = ctx.scenarios("american", quick, thorough)
    return base + [rand_american(ctx.rng) for _ in range(ctx.n(rq, rt))]


def tree_points(ctx, quick, thorough, rq, rt, nmax=12):
    base = ctx.scenarios("tree", quick, thorough)
    return base + [rand_tree(ctx.rng, nmax, drift=0.12) for _ in range(ctx.n(rq, rt))]


def tree2_points(ctx, quick, thorough, rq, rt, nmax=8):
    base = ctx.scenarios("tree2", quick, thorough)
    return base + [rand_tree2(ctx.rng, nmax) for _ in range(ctx.n(rq, rt))]


def hn_ok(p):
    gs = p["gamma"] + p["lamb"] + 0.5
    pers = p["beta"] + p["alpha"] * gs * gs
    if pers > 0.97:
        return False
    v = (p["omega"] + p["alpha"]) / (1 - pers)
    # a day's variance cannot nearly vanish (else the characteristic function dies out too slowly for quadrature)
    return 2e-5 < v < 6e-4 and p["omega"] + p["beta"] * v >= 0.3 * v


def hn_points(ctx, quick, thorough, rq, rt):
    base = [p for p in ctx.scenarios("hn", quick, thorough) if hn_ok(p)]
    return base + [rand_hn(ctx.rng, not ctx.quick and k % 4 == 0) for k in range(ctx.n(rq, rt))]


# ---------------------------------------------------------------------------
@suite("C10")
def c10(ctx):
    progs = []
    for p in gbs_points(ctx, 700, 1500, 1500, 40000):
        for cls in (GBS if ctx.rng.random() < 0.4 else ["GBSOption"]):
            progs.append(both(ctx, cls, gbs_args(cls, p)))
    for _ in range(ctx.n(60, 1000)):       # a volatility given later
        p = rand_gbs(ctx.rng)
        P = Prog("late sigma")
        h = P.new("GBSOption", {k: v for k, v in p.items() if k != "sigma"})
        P.set(h, "sigma", p["sigma"])
        P.call(h, "call")
        P.call(h, "put")
        progs.append(P.done())
    return progs


@suite("C11")
def c11(ctx):
    return [both(ctx, MS_CLS, p) for p in ms_points(ctx, 800, 2048, 1200, 30000)]


@suite("C12")
def c12(ctx):
    progs = []
    pts = two_points(ctx, 800, 4000, 1000, 20000)
    for _ in range(ctx.n(80, 1500)):        # nearly the same asset twice: the ratio hardly moves
        p = rand_two(ctx.rng)
        p.update(rho=1 - 10 ** ctx.rng.uniform(-5, -1.5), sigma2=p["sigma1"] * (1 + 10 ** ctx.rng.uniform(-4, -1.5)),
                 K=ctx.rng.choice([0.0, 0.0, p["S2"] * ctx.rng.uniform(0.001, 0.02)]))
        p["S1"] = (p["S2"] * p["Q2"] + p["K"]) / p["Q1"] * math.exp(ctx.rng.gauss(0, 0.04))
        pts.append(p)
    for p in pts:
        P = Prog(SPREAD)
        h = obj(ctx, P, SPREAD, p)
        a, b = P.call(h, "call"), P.call(h, "put")
        if p["K"] == 0:
            s = dict(p)
            for x, y in (("S1", "S2"), ("b1", "b2"), ("sigma1", "sigma2"), ("Q1", "Q2")):
                s[x], s[y] = p[y], p[x]
            g = P.new(SPREAD, s)
            c, d = P.call(g, "call"), P.call(g, "put")
            P.rel("swap", [a, d])
            P.rel("swap", [c, b])
        progs.append(P.done())
    return progs


@suite("C14")
def c14(ctx):
    progs = []
    for p in rgw_points(ctx, 400, 432, 700, 15000):
        P = Prog(RGW)
        h = obj(ctx, P, RGW, p)
        P.call(h, "is_call_optimal")
        P.call(h, "call")
        progs.append(P.done())
    for _ in range(ctx.n(150, 2000)):      # either side of the exercise condition, of the dividend date, and of no critical price
        p = rand_rgw(ctx.rng)
        edge = p["K"] * (1 - math.exp(-p["r"] * (p["t"] - p["td"])))
        P = Prog("exercise boundary")
        h = P.new(RGW, dict(p, D=edge * 0.999))
        for D in (edge * 0.999, edge * 1.001, edge * 1.05):
            P.set(h, "D", D)
            P.call(h, "is_call_optimal")
            P.call(h, "call")
        progs.append(P.done())
    return progs


@suite("C15")
def c15(ctx):
    progs = []
    for p in american_points(ctx, 260, 810, 900, 20000):
        progs.append(both(ctx, BAW, p))
    for _ in range(ctx.n(60, 1000)):       # across the critical price
        p = rand_american(ctx.rng)
        P = Prog("spot ladder")
        h = P.new(BAW, p)
        for k in range(12):
            P.set(h, "S", p["K"] * (0.55 + 0.12 * k))
            P.call(h, "call")
            P.call(h, "put")
        progs.append(P.done())
    for _ in range(ctx.n(60, 600)):        # carry just below and at the rate
        p = rand_american(ctx.rng)
        for db in (-1e-3, -1e-5, -1e-9, 0.0, 1e-9, 1e-3):
            progs.append(both(ctx, BAW, dict(p, b=p["r"] + db), "carry at the rate"))
    return progs


@suite("C16")
def c16(ctx):
    progs = []
    for p in american_points(ctx, 260, 810, 900, 20000):
        what = [m for m, z in (("call", 1), ("put", -1)) if bs93_ok(p, z)]
        if what:
            progs.append(both(ctx, BS93, p, what=what))
    for _ in range(ctx.n(50, 1000)):
        p = rand_american(ctx.rng)
        what = [m for m, z in (("call", 1), ("put", -1)) if bs93_ok(p, z)]
        P = Prog("spot ladder")
        h = P.new(BS93, p)
        for k in range(12):
            P.set(h, "S", p["K"] * (0.55 + 0.12 * k))
            for m in what:
                P.call(h, m)
        progs.append(P.done())
    return progs


# ---------------------------------------------------------------------------
@suite("C04")
def c04(ctx):
    progs = []
    for p in tree_points(ctx, 600, 4320, 300, 6000):
        cls, a = split(p)
        P = Prog(cls + " " + a["type"])
        h = obj(ctx, P, cls, a)
        for m in ("call", "put"):
            P.call(h, m, tree=True)
            P.call(h, m)
            if ctx.rng.random() < 0.2:
                P.call(h, m, tree=False)
        progs.append(P.done())
    for n in list(range(1, 16)) + [25, 40, 64, ctx.rng.randint(41, 90)] + ([] if ctx.quick else [100, 150, 200]):
        for cls in TREES1:
            for ty in ("european", "american"):
                p = rand_tree(ctx.rng, 5, cls)
                p.update(n=n, type=ty)
                a = split(p)[1]
                progs.append(both(ctx, cls, a, "%s %s n" % (cls, ty), tree=True))
    for cls in TREES1:                  # many steps: the price alone
        for ty in ("european", "american"):
            for lo, hi in [(100, 136), (137, 270)] + ([] if ctx.quick else [(300, 500)]):
                p = rand_tree(ctx.rng, 5, cls)
                p.update(n=ctx.rng.randint(lo, hi), type=ty, sigma=max(p["sigma"], 0.15))
                progs.append(both(ctx, cls, split(p)[1], "%s %s many" % (cls, ty)))
    return progs


@suite("C05")
def c05(ctx):
    progs = []
    for p in tree2_points(ctx, 400, 2592, 250, 5000):
        cls = "BionomialSpreadAllTypes"
        P = Prog("payoff %d %s" % (p["option"], p["otype"]))
        q = dict(p)
        if q.get("K") is not None and ctx.rng.random() < 0.1:
            q["K"] = p["K"] = -q["K"]
        if p["option"] != 8 and ctx.rng.random() < 0.15:      # nothing held of one of the two
            k = ctx.rng.choice(["Q1", "Q2"])
            q[k] = p[k] = 0
        if q["option"] not in NOK2[1:] and q["option"] not in (4, 5) and ctx.rng.random() < 0.5:
            q.pop("K2", None)           # one-strike payoffs need no second strike
        if q["option"] in (6, 7, 8, 9) and ctx.rng.random() < 0.5:
            q.pop("K2", None)
        h = obj(ctx, P, cls, q)
        ix = {m: P.call(h, m) for m in ("call", "put")}
        named = {1: "BionomialSpreadOption", 2: "BionomialMaxOption", 3: "BionomialMinOption"}.get(p["option"])
        if named:
            g = obj(ctx, P, named, tree2_class(named, p))
            for m in ("call", "put"):
                P.rel("equivalent", [ix[m], P.call(g, m)])
        progs.append(P.done())
    return progs


@suite("C13")
def c13(ctx):
    progs = []
    for n in ctx.n([60, 100, 160], [60, 100, 250, 500]):
        for _ in range(ctx.n(25 if n < 150 else 12, 60)):
            p = rand_tree(ctx.rng, 5)
            p.update(n=n, type="european")
            p["sigma"] = rare(ctx.rng, max(p["sigma"], 0.1), lambda: ctx.rng.uniform(1.0, 1.4), chance=0.15)
            p["b"] = rare(ctx.rng, p["b"], lambda: ctx.rng.uniform(-0.35, 0.35), chance=0.25)
            a = split(p)[1]
            # the usual condition for positive probabilities, with room to spare
            if abs(p["b"]) * math.sqrt(p["t"] / n) > 0.5 * p["sigma"]:
                continue
            for cls in TREES1:
                progs.append(both(ctx, cls, a, "%s n=%d" % (cls, n)))
            P = Prog("american n=%d" % n)
            ix = {}
            for cls in TREES1:
                h = P.new(cls, dict(a, type="american"))
                for m in ("call", "put"):
                    ix[cls, m] = P.call(h, m)
            for cls in TREES1[1:]:
                for m in ("call", "put"):
                    P.rel("agree", [ix[TREES1[0], m], ix[cls, m]])
            progs.append(P.done())
    for _ in range(ctx.n(80, 300)):
        p = rand_tree2(ctx.rng, 5, 7)
        p.update(n=ctx.rng.choice([20, 40, 60]), otype="european", Q1=p["Q1"] or 1, Q2=p["Q2"] or 2)
        p["rho"] = rare(ctx.rng, p["rho"], lambda: ctx.rng.choice([-1, 1]) * ctx.rng.uniform(0.85, 1.0), chance=0.4)
        progs.append(both(ctx, "BionomialSpreadAllTypes", p, "exchange"))
    return progs


@suite("C22")
def c22(ctx):
    progs = []
    for k, p in enumerate(hn_points(ctx, 40, 384, 80, 1500) + [dict(rand_hn(ctx.rng), t=ctx.rng.choice([150, 200, 260, 365, 400])) for _ in range(ctx.n(8, 60))]):
        P = Prog("%s t=%d" % (HN, p["t"]))
        h = P.new(HN, p)
        for m, q in ((("call", {}), ("delta", {}), ("gamma", {})), (("put", {}), ("delta", {"call": False})),
                     (("put", {}), ("delta", {"call": True}), ("gamma", {})))[k % 3]:
            P.call(h, m, **q)
        progs.append(P.done())
    return progs


# ---------------------------------------------------------------------------
def parity(P, h, **q):
    P.rel("parity", [P.call(h, "call", **q), P.call(h, "put", **q)])


def ends(ctx, p, names, S="S", K="K"):
    """deep in and out of the money"""
    q = dict(p)
    if ctx.rng.random() < 0.3:
        q[K] = q[K] * ctx.rng.choice([0.01, 0.2, 5, 80])
    return q


@suite("C01")
def c01(ctx):
    progs = []

    def one(cls, p, arr=False, **q):
        P = Prog(cls)
        h = obj(ctx, P, cls, p)
        parity(P, h, **q)
        progs.append(P.done())

    for p in gbs_points(ctx, 300, 1500, 400, 8000):
        cls = ctx.rng.choice(GBS)
        one(cls, gbs_args(cls, ends(ctx, p, None)))
    for p in ms_points(ctx, 200, 2048, 300, 5000):
        one(MS_CLS, p)
    for p in two_points(ctx, 200, 2000, 300, 5000):
        one(SPREAD, p)
    for p in hn_points(ctx, 20, 200, 30, 300):
        one(HN, p)
    for p in tree_points(ctx, 300, 2000, 400, 5000, 40):
        cls, a = split(p)
        one(cls, dict(a, type="european"))
    for p in tree2_points(ctx, 100, 800, 200, 3000):
        if p["option"] in (1, 6, 7, 8, 9):
            one("BionomialSpreadAllTypes", dict(p, otype="european"))
            if p["option"] == 1:
                one("BionomialSpreadOption", tree2_class("BionomialSpreadOption", dict(p, otype="european")))
    for _ in range(ctx.n(100, 2000)):
        n = ctx.rng.randint(2, 9)
        one("GBSOption", arrays(ctx.rng, rand_gbs(ctx.rng), n))
        one("Black76Option", arrays(ctx.rng, gbs_args("Black76Option", rand_gbs(ctx.rng)), n))
        one(MS_CLS, arrays(ctx.rng, rand_ms(ctx.rng), n, ["FT", "K", "Pt"]))
        one(SPREAD, arrays(ctx.rng, rand_two(ctx.rng), n))
    return progs


@suite("C03")
def c03(ctx):
    progs = []
    for p in tree_points(ctx, 500, 4320, 400, 8000, 30):
        cls, a = split(p)
        P = Prog(cls)
        am = obj(ctx, P, cls, dict(a, type="american"))
        eu = obj(ctx, P, cls, dict(a, type="european"))
        for m in ("call", "put"):
            P.rel("dominates", [P.call(am, m), P.call(eu, m)])
            if a["n"] <= 12:
                P.rel("dominates", [P.call(am, m, tree=True), P.call(eu, m, tree=True)])
        progs.append(P.done())
    for p in tree2_points(ctx, 250, 1500, 200, 4000):
        cls = ctx.rng.choice(TREES2)
        q = tree2_class(cls, p)
        P = Prog(cls)
        am = obj(ctx, P, cls, dict(q, otype="american"))
        eu = obj(ctx, P, cls, dict(q, otype="european"))
        for m in ("call", "put"):
            P.rel("dominates", [P.call(am, m), P.call(eu, m)])
        progs.append(P.done())
    for p in american_points(ctx, 300, 810, 300, 6000):
        progs.append(both(ctx, BAW, p))
    for p in rgw_points(ctx, 200, 432, 200, 4000):
        progs.append(both(ctx, RGW, p, what=("call",)))
    return progs


CASH = {RGW: ("S", "K", "D"), SPREAD: ("S1", "S2", "K")}


@suite("C26")
def c26(ctx):
    progs = []
    rng = ctx.rng

    def case(cls, p, what=("call", "put"), cash=("S", "K"), strikes=True):
        P = Prog(cls)
        h = obj(ctx, P, cls, p)
        first = {m: P.call(h, m) for m in what}
        lam = rng.choice([1e-3, 0.01, 0.5, 3.0, 40.0, 1e4])
        if cls == RGW and p["S"] * lam > 3e6:         # there critical prices count as infinite
            lam = 0.01
        g = P.new(cls, {x: (v * lam if x in cash and v is not None else v) for x, v in p.items()})
        for m in what:
            P.rel("scale", [first[m], P.call(g, m)])
        if strikes:
            width = 0.3 * math.sqrt(2e-4 * p["t"]) if cls == HN else 1
            ks = sorted(p["K"] * (1 + width * x) for x in rng.sample([-0.3, -0.1, -0.02, 0.01, 0.05, 0.2, 0.4], 3)) if p["K"] else [1.0, 4.0, 9.0]
            objs = [P.new(cls, dict(p, K=k)) for k in ks]
            for m in what:
                P.rel("strikes", [P.call(o, m) for o in objs])
        progs.append(P.done())

    for p in gbs_points(ctx, 150, 1500, 300, 8000):
        cls = rng.choice(GBS)
        case(cls, gbs_args(cls, p), cash=("FT", "K") if cls == "Black76Option" else ("S", "K"))
    for p in ms_points(ctx, 100, 1000, 100, 4000):
        case(MS_CLS, p, cash=("FT", "K"))
    for p in two_points(ctx, 150, 1500, 150, 4000):     # (Kirk's volatility depends on K: no monotonicity to claim)
        case(SPREAD, p, cash=("S1", "S2", "K"), strikes=False)
    for p in american_points(ctx, 150, 810, 150, 4000):
        case(BAW, p)
        what = [m for m, z in (("call", 1), ("put", -1)) if bs93_ok(p, z)]
        if what:
            case(BS93, p, what=what)
    for p in rgw_points(ctx, 100, 432, 150, 3000):
        case(RGW, p, what=("call",), cash=("S", "K", "D"))
    for p in tree_points(ctx, 200, 2000, 150, 4000, 25):
        cls, a = split(p)
        case(cls, a)
    for p in tree2_points(ctx, 100, 1000, 100, 2000, 5):
        if p["option"] in (1, 2, 3, 4, 5, 6, 7):       # product and quotient are not homogeneous of degree one
            case("BionomialSpreadAllTypes", p, cash=("S1", "S2", "K", "K2"), strikes=p["option"] in (1, 2, 3, 6))
    for p in hn_points(ctx, 16, 100, 16, 200):
        case(HN, p)
    return progs

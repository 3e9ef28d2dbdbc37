"""Greeks (C06, C07), implied volatility (C08), arrays (C09)."""
import math

import numpy as np

from gen import *
from rec import Ref
from suites import Prog, suite
from suites_price import (obj, gbs_points, ms_points, two_points, rgw_points, american_points, tree_points, tree2_points)

SIDED = ("delta", "theta", "rho", "lamb", "c_of_c")


def gq(m, side, explicit=True):
    return {"call": side} if m in SIDED + ("greeks",) and explicit else {}


@suite("C06")
def c06(ctx):
    progs = []
    rng = ctx.rng
    names = ["delta", "gamma", "vega", "theta", "rho", "lamb", "c_of_c"]
    for p in gbs_points(ctx, 250, 1500, 450, 12000):
        cls = rng.choice(GBS)
        P = Prog(cls)
        h = obj(ctx, P, cls, gbs_args(cls, p))
        side = rng.random() < 0.5
        q = gq("delta", side, not side or rng.random() < 0.5)
        ix = [P.call(h, m, **(q if m in SIDED else {})) for m in names]
        g = P.call(h, "greeks", **q)
        P.rel("dict", [g] + ix)
        for m in rng.sample(names[:5], 2):
            P.call(h, m, **dict(gq(m, not side), method="analytic"))
        progs.append(P.done())
    for _ in range(ctx.n(250, 4000)):          # finite differences agree
        cls = rng.choice(GBS)
        p = rand_gbs(rng)
        p.update(t=float(max(p["t"], 0.08)), sigma=max(p["sigma"], 0.1), S=100.0 * rng.uniform(0.8, 1.2))
        p["K"] = p["S"] * math.exp(rng.uniform(-1.5, 1.5) * p["sigma"] * math.sqrt(p["t"]))
        p["b"] = rng.choice([0.0, p["r"], p["b"]])
        P = Prog("fdm " + cls)
        h = obj(ctx, P, cls, gbs_args(cls, p))
        for side in (True, False):
            for m in names[:6]:
                if m in ("gamma", "vega") and not side:
                    continue
                if m == "rho" and cls != "Black76Option" and p["b"] != 0:
                    P.call(h, m, call=side, method="fdm")      # must be refused
                    continue
                P.rel("fdm", [P.call(h, m, **dict(gq(m, side), method="fdm")), P.call(h, m, **gq(m, side))])
        progs.append(P.done())
    return progs


# ---------------------------------------------------------------------------
def shifted(P, cls, p, x, side, xs):
    res = []
    for v in xs:
        h = P.new(cls, dict(p, **{x: v}))
        res.append(P.call(h, side))
    return res


def greek(ctx, P, h, cls, p, m, side, key="", smooth=True):
    """Query one greek and the prices its derivative is made of."""
    q = gq(m, side) if cls != RGW else {}
    i = P.call(h, m, **q)
    price_side = "call" if m in ("gamma", "vega") or side else "put"
    if m == "theta":
        x = "t"
    elif m == "rho":
        x = "r"
    elif key:
        x = key
    elif m in ("delta", "gamma"):
        x = "FT" if cls in (MS_CLS, "Black76Option") else "S"
    else:
        x = "sigma"
    v = p[x]
    single = m == "theta" or (m == "vega" and cls in (BAW, BS93))
    if m == "theta":
        step = 1 / 252
    elif single:
        step = v / 10
    elif m == "rho":
        step = 2e-3
    elif m == "gamma":
        step = 0.02 * v
    elif x.startswith("S") or x == "FT":
        step = 4e-3 * v
    else:
        step = 0.01 * v
    xs = [v + step, v - step, v + step / 2, v - step / 2] + ([v] if m == "gamma" else [])
    w = shifted(P, cls, p, x, price_side, xs)
    wide = []
    if cls in TREES1 + TREES2 + [BAW, BS93] and m in ("delta", "gamma"):
        H = 2.2 * math.log1p(v)
        wide = shifted(P, cls, p, x, price_side, [v + H, v - H, v])
    if cls in TREES1 + TREES2 and m == "rho" and not smooth:
        wide = shifted(P, cls, p, x, price_side, [v + 0.3, v - 0.3])
    fan = []
    if cls in TREES1 + TREES2 and m in ("delta", "vega"):
        H = 2.2 * math.log1p(v)
        for k in range(11):
            fan += shifted(P, cls, p, x, price_side, [v + H / 2 ** k, v - H / 2 ** k])
    P.rel("deriv", [i], key=key, w=w, wide=wide, fan=fan, smooth=smooth)
    return i


def keys(cls, m):
    if cls == MS_CLS and m == "vega":
        return ["sigmaS", "sigmaE", "sigmaF"]
    if cls == SPREAD or cls in TREES2:
        return {"delta": ["S1", "S2"], "gamma": ["S1", "S2"], "vega": ["sigma1", "sigma2"]}.get(m, [""])
    return [""]


GREEKS = ["delta", "gamma", "vega", "theta", "rho", "lamb"]


def greek_session(ctx, cls, p, ms, smooth=lambda m: True, full=False):
    rng = ctx.rng
    P = Prog(cls + (" " + str(p.get("type", p.get("otype", "")))).rstrip())
    side = True if cls == RGW else rng.random() < 0.5
    h = obj(ctx, P, cls, p)
    ps = "call" if side else "put"
    ix = []
    for m in ms:
        if m == "rho" and cls == MS_CLS:
            continue
        if m == "lamb":
            i = P.call(h, "lamb", **(gq(m, side) if cls != RGW else {}))
            d = P.call(h, "delta", **(gq(m, side) if cls != RGW else {}))
            P.rel("lambda", [i, d, P.call(h, ps)])
            ix.append(i)
        else:
            for k in keys(cls, m):
                i = greek(ctx, P, h, cls, p, m, side, k, smooth(m))
            ix.append(i)
    if full:
        g = P.call(h, "greeks", **(gq("delta", side) if cls != RGW else {}))
        P.rel("dict", [g] + ix)
    return P.done()


@suite("C07")
def c07(ctx):
    progs = []
    rng = ctx.rng
    tree_smooth = lambda ty: (lambda m: m == "theta" or (m == "rho" and ty == "european"))

    def some(k=3):
        if rng.random() < 0.3:
            return GREEKS, True
        return rng.sample(GREEKS, k), False

    for _ in range(ctx.n(60, 1200)):
        p = rand_ms(rng)
        p["t"] = max(p["t"], 0.05)
        p["T"] = p["t"] + rng.uniform(0.01, 2)
        p["K"] = p["FT"] * math.exp(rng.uniform(-1.2, 1.2) * p["sigmaS"] * math.sqrt(p["t"]))
        ms, full = some()
        progs.append(greek_session(ctx, MS_CLS, p, ms, full=full))
    for _ in range(ctx.n(60, 1200)):
        p = rand_two(rng)
        p["rho"] = max(-0.9, min(0.9, p["rho"]))
        p["t"] = max(p["t"], 0.02)          # theta looks one trading day back
        ms, full = some()
        progs.append(greek_session(ctx, SPREAD, p, ms, full=full))
    for _ in range(ctx.n(60, 1200)):
        p = rand_rgw(rng)
        p["t"] = max(p["t"], 0.15)
        p["td"] = p["t"] * rng.uniform(0.2, 0.8)
        ms, full = some()
        progs.append(greek_session(ctx, RGW, p, ms, full=full))
    for cls in (BAW, BS93):
        for _ in range(ctx.n(60, 1200)):
            p = rand_american(rng)
            p["S"], p["K"] = 100.0, 100.0 * math.exp(rng.uniform(-1, 1) * p["sigma"] * math.sqrt(p["t"]))
            p["t"] = max(p["t"], 0.1)
            p["r"] = max(p["r"], 0.02)
            ms, full = some()
            progs.append(greek_session(ctx, cls, p, ms, full=full))
    for _ in range(ctx.n(120, 2000)):
        p = rand_tree(rng, 8)
        p["t"] = max(p["t"], 0.1)
        if rng.random() < 0.5:      # far from the kinks
            p.update(S=100.0, K=rng.choice([20.0, 150.0, 150.0]), n=2, sigma=rng.uniform(0.5, 0.6), t=1.0, b=rng.uniform(-0.02, 0.05))
        cls, a = split(p)
        ms, full = some()
        progs.append(greek_session(ctx, cls, a, ms, tree_smooth(a["type"]), full))
    for _ in range(ctx.n(140, 1500)):
        p = rand_tree2(rng, 3)
        p["t"] = max(p["t"], 0.1)
        if p["option"] == 9:
            p["option"] = 6
        cls = rng.choice(TREES2)
        q = tree2_class(cls, p)
        progs.append(greek_session(ctx, cls, q, rng.sample(GREEKS, 2), tree_smooth(p["otype"])))
    return progs


# ---------------------------------------------------------------------------
def _root(r):
    return r.root if hasattr(r, "root") else r.x


@suite("C08")
def c08(ctx):
    progs = []
    rng = ctx.rng

    def one(cls, p, side=True, sid=None):
        """price at p, find its volatility (without one, with another, verbose or not), price again"""
        P = Prog(sid or cls)
        m = "call" if side else "put"
        a = P.call(P.new(cls, p), m)
        how = rng.randrange(4)
        q = {k: v for k, v in p.items() if k != "sigma"}
        if how == 1:
            q["sigma"] = rng.uniform(0.05, 1.5)
        h = P.new(cls, q)
        if how == 2:
            P.set(h, "sigma", 0.3)
        if how == 3:
            h = P.copy(h)
        kw = {} if cls == RGW or (side and rng.random() < 0.5) else {"call": side}
        verbose = rng.random() < 0.3
        if verbose:
            kw["verbose"] = True
        v = P.call(h, "volatility", price=Ref(a), **kw)
        P.call(h, "get_params")
        g = P.new(cls, dict(q, sigma=Ref(v, _root) if verbose else Ref(v)))
        b = P.call(g, m)
        P.rel("reprice", [v, b])
        if cls != RGW and not any(isinstance(x, np.ndarray) for x in p.values()):
            P.rel("recover", [v, a])
        progs.append(P.done())

    def money(p, s, t, lim):
        return p * math.exp(rng.uniform(-lim, lim) * s * math.sqrt(t))

    for p in gbs_points(ctx, 150, 1500, 250, 8000):
        cls = rng.choice(GBS)
        p = dict(p, sigma=float(min(max(p["sigma"], 0.05), 1.5)))
        p["K"] = money(p["S"], p["sigma"], p["t"], 2.5)
        one(cls, gbs_args(cls, p), rng.random() < 0.5)
    for _ in range(ctx.n(60, 1000)):        # very high and very low volatilities
        cls = rng.choice(GBS)
        p = rand_gbs(rng)
        p["t"] = 10 ** rng.uniform(-3, 0.5)
        p["sigma"] = min(rng.uniform(0.05, 2.2) / math.sqrt(p["t"]), rng.uniform(4, 9.5)) if rng.random() < 0.75 else rng.uniform(0.01, 0.06)
        p["K"] = money(p["S"] * math.exp(p["b"] * p["t"]), p["sigma"], p["t"], 1.5)
        one(cls, gbs_args(cls, p), rng.random() < 0.5)
    for _ in range(ctx.n(80, 2000)):
        one(RGW, rand_rgw(rng))
    for _ in range(ctx.n(120, 3000)):       # arrays of parameters, of prices, of both
        cls = rng.choice(GBS)
        n = rng.randint(2, 9)
        t, s = rng.uniform(0.1, 2), rng.uniform(0.2, 0.7)
        p = dict(S=100.0, K=100 * math.exp(rng.uniform(-0.3, 0.3)), t=t, r=rng.uniform(0, 0.1), b=rng.choice([0.0, 0.05]), sigma=s)
        names = rng.sample(["S", "K", "t", "r", "sigma"], rng.randint(1, 4))
        one(cls, gbs_args_arr(cls, arrays(rng, p, n, names, 0.08)), rng.random() < 0.5, "arrays " + cls)
    return progs


def gbs_args_arr(cls, p):
    return gbs_args(cls, p)


# ---------------------------------------------------------------------------
@suite("C09")
def c09(ctx):
    progs = []
    rng = ctx.rng

    def one(cls, p, n, queries):
        P = Prog("%s n=%d" % (cls, n))
        if rng.random() < 0.3:             # arrays given later, or of another length before
            x = rng.choice([k for k, v in p.items() if isinstance(v, np.ndarray)])
            first = float(p[x][0]) if rng.random() < 0.5 else np.concatenate((p[x], p[x]))[: rng.randint(2, n + 3)]
            if isinstance(first, np.ndarray) and (len([1 for v in p.values() if isinstance(v, np.ndarray)]) > 1 or len(first) == n):
                first = float(p[x][0])
            h = P.new(cls, dict(p, **{x: first}))
            if not isinstance(first, np.ndarray):
                P.call(h, "call")
            P.set(h, x, p[x])
        else:
            h = P.new(cls, p)
        if rng.random() < 0.2:
            h = P.copy(h)
        js = sorted(set([0, n - 1] if rng.random() < 0.5 else [rng.randrange(n)]))
        els = {j: P.new(cls, {k: (v[j if len(v) > 1 else 0].item() if isinstance(v, np.ndarray) else v) for k, v in p.items()}) for j in js}
        for m, q in queries:
            a = P.call(h, m, **q)
            for j in js:
                P.rel("index", [a, P.call(els[j], m, **q)], j=j + 1)
        progs.append(P.done())

    def size():
        return rng.choice([2, 2, 3, 3, 4, 5, 7, 10, 25, 64, 300])

    def queries(names, k, fdm=False):
        res = [("call", {}), ("put", {})]
        for m in rng.sample(names, min(k, len(names))):
            side = rng.random() < 0.5
            q = gq(m, side)
            if fdm:
                q["method"] = "fdm"
            res.append((m, q))
        return res

    gnames = ["delta", "gamma", "vega", "theta", "rho", "lamb", "c_of_c", "greeks"]
    for p in gbs_points(ctx, 150, 1500, 300, 8000):
        cls = rng.choice(GBS)
        p = dict(p, S=float(p["S"]), K=float(p["K"]), t=float(p["t"]))
        n = size()
        one(cls, gbs_args(cls, arrays(rng, p, n)) if cls != "Black76Option" else arrays(rng, gbs_args(cls, p), n), n, queries(gnames, 4))
    for _ in range(ctx.n(40, 800)):
        p = rand_gbs(rng)
        p.update(t=float(max(p["t"], 0.1)), sigma=max(0.15, p["sigma"]), S=100.0)
        p["K"] = 100.0 * math.exp(rng.uniform(-1, 1) * p["sigma"] * math.sqrt(p["t"]))
        p["b"] = 0.0
        cls = rng.choice(GBS)
        n = rng.choice([2, 3, 7])
        q = gbs_args(cls, p)
        one(cls, arrays(rng, q, n, rng.sample([x for x in q if x != "b"], 2)), n, queries(gnames[:6], 2, True))
    for _ in range(ctx.n(60, 1500)):
        p = rand_ms(rng)
        p["t"] = max(p["t"], 0.05)
        p["T"] = p["t"] + rng.uniform(0.3, 2)
        p["K"] = p["FT"] * math.exp(rng.uniform(-1, 1) * p["sigmaS"] * math.sqrt(p["t"]))
        for x in ("rhoSE", "rhoSF", "rhoEF"):
            p[x] *= 0.6
        n = rng.choice([2, 3, 4, 7])
        one(MS_CLS, arrays(rng, p, n, amount=0.08), n, queries(["delta", "gamma", "vega", "theta", "lamb", "greeks"], 2))
    for _ in range(ctx.n(60, 1500)):
        p = rand_two(rng, K=rng.choice([0.0, rng.uniform(1, 20)]))
        p["rho"] = max(-0.8, min(0.8, p["rho"]))
        n = rng.choice([2, 3, 4, 7])
        p = arrays(rng, p, n)
        if rng.random() < 0.3:              # exchange options among the others
            p["K"] = np.array([rng.choice([0.0, rng.uniform(1, 20)]) for _ in range(n)])
        one(SPREAD, p, n, queries(["delta", "gamma", "vega", "theta", "rho", "lamb", "greeks"], 2))
    return progs

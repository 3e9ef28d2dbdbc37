"""Histories (C02), refusals (C23), reports (C24), tree plots (C25)."""
import math

import numpy as np

import tlc
from gen import *
from rec import Ref
from suites import Prog, suite



def slightly_more(v):
    return v * 1.01


ALL = GBS + [MS_CLS, SPREAD, RGW, BAW, BS93] + TREES1 + TREES2 + [HN]
SETTABLE = [c for c in ALL if c != HN]
ARRAYS = GBS + [MS_CLS, SPREAD]
GREEKS = ["delta", "gamma", "vega", "theta", "rho", "lamb", "greeks"]
ALLNAMES = ["S", "K", "t", "r", "b", "sigma", "FT", "Pt", "T", "sigmaS", "KappaE", "td", "D", "S1", "S2", "b1", "sigma2", "rho",
            "Q1", "n", "type", "otype", "option", "K2", "lamb", "omega", "zzz", "_S", "s"]


def params(rng, cls):
    """Ordinary parameters of a class"""
    if cls in GBS:
        p = rand_gbs(rng)
        p.update(t=min(max(0.1, p["t"]), 8.0), sigma=min(max(0.1, p["sigma"]), 1.2), S=100.0 * rng.uniform(0.8, 1.2))
        p["K"] = p["S"] * rng.uniform(0.85, 1.2)
        return gbs_args(cls, p)
    if cls == MS_CLS:
        p = rand_ms(rng)
        p["T"] = p["t"] + rng.uniform(0.2, 1)
        for x in ("rhoSE", "rhoSF", "rhoEF"):
            p[x] *= 0.5
        p["K"] = p["FT"] * rng.uniform(0.9, 1.15)
        return p
    if cls == SPREAD:
        p = rand_two(rng)
        p["rho"] *= 0.8
        p["K"] = abs(p["K"])
        return p
    if cls == RGW:
        p = rand_rgw(rng)
        return dict(p, K=p["S"] / rng.uniform(0.7, 1.5), td=min(p["td"], 0.85 * p["t"]))
    if cls in (BAW, BS93):
        while True:
            p = rand_american(rng)
            p["K"] = p["S"] * rng.uniform(0.8, 1.2)
            p["b"] = rng.choice([p["r"], rng.uniform(0.0, p["r"]), -0.01])
            if all(bs93_ok(dict(p, r=p["r"] + d, b=p["b"] + e, t=p["t"] * f, sigma=p["sigma"] * f), z)
                   for z in (1, -1) for d in (0, .01) for e in (0, .01) for f in (0.9, 1, 1.1)):
                return p
    if cls in TREES1:
        p = rand_tree(rng, 6, cls)
        p["K"] = p["S"] * rng.uniform(0.8, 1.2)
        return split(p)[1]
    if cls in TREES2:
        return tree2_class(cls, rand_tree2(rng, 3))
    return rand_hn(rng)


def names(cls, p):
    return [x for x in p if p[x] is not None]


def other(rng, p, x, c):
    """Another value of parameter x, ordinary too"""
    v = p[x]
    if x == "n":
        return v + rng.choice([1, 2])
    if x in ("type", "otype"):
        return "american" if v == "european" else "european"
    if x == "option":
        return v % 9 + 1
    if x in RATES:
        return v + 0.01 if c in (BAW, BS93) else rng.choice([v + 0.01, v + 0.01, 0.0 if v else 0.02, v + 1e-5])
    if x in CORR:
        return rng.choice([v * 0.5 + 0.1, 0.0 if v else 0.3])
    if x == "t" and "lamb" in p:        # days
        return v + 1
    if x == "T":
        return v * 1.2
    if x == "td":
        return v * 0.8
    if x in ("S", "K", "FT", "S1", "S2") and v >= 20 and rng.random() < 0.1:
        return int(v * 1.05)
    return v * rng.choice([0.93, 0.93, 1.08, 1.08, 1 + 10 ** rng.uniform(-11, -3)])      # another value, or nearly the same


def greek_of(rng, cls):
    """A random greek query: (method, arguments)"""
    if cls == HN:
        return rng.choice([("delta", {}), ("delta", {"call": False}), ("gamma", {})])
    ms = [m for m in GREEKS if not (cls == MS_CLS and m == "rho")] + (["c_of_c"] if cls in GBS else [])
    m = rng.choice(ms)
    q = {}
    if cls != RGW and m in ("delta", "theta", "rho", "lamb", "c_of_c", "greeks") and rng.random() < 0.7:
        q["call"] = rng.random() < 0.5
    if cls in GBS and m in ("delta", "gamma", "vega", "theta", "lamb") and rng.random() < 0.5:
        q["method"] = "fdm"
    return m, q


def sides(cls):
    return ("call",) if cls == RGW else ("call", "put")


class Bind:
    """A history of SessionGen on real classes"""

    def __init__(self, ctx, P, classes_, arr=False):
        self.rng, self.P, self.arr = ctx.rng, P, arr
        self.cls, self.base, self.slots = {}, {}, {}
        for k, c in classes_.items():
            rng = self.rng
            p = params(rng, c)
            n = rng.choice([2, 3, 7])
            cand = names(c, p)
            xs = rng.sample(cand, 2) if len(cand) > 1 else cand * 2
            vals = []
            for x in xs:
                two = [p[x], other(rng, p, x, c)]
                if arr:
                    for i in (0, 1):
                        if rng.random() < 0.7:
                            two[i] = np.array([two[i] * (1 + 0.03 * j) if x not in CORR else two[i] for j in range(n)])
                if rng.random() < 0.5:
                    two.reverse()
                vals.append(two)
            self.cls[k], self.base[k], self.slots[k] = c, p, list(zip(xs, vals))
        self.h, self.kind, self.state = {}, {}, {}
        # mostly the same questions again and again: what an answer leaves behind shows in the next one
        self.pet = {k: (rng.choice(sides(c)), greek_of(rng, c)) for k, c in classes_.items()}

    def greek(self, k):
        return self.pet[k][1] if self.rng.random() < 0.6 else greek_of(self.rng, self.cls[k])

    def side(self, k):
        return self.pet[k][0] if self.rng.random() < 0.5 else self.rng.choice(sides(self.cls[k]))

    def name(self, k, x):
        n = self.slots[k][x - 1][0]
        return "S" if n == "FT" and self.cls[k] == "Black76Option" and self.rng.random() < 0.5 else n

    def play(self, hist):
        P, rng = self.P, self.rng
        for a in hist:
            h = a.get("h")
            if a["a"] == "new":
                k = a["k"]
                p = dict(self.base[k])
                for (x, vals), v in zip(self.slots[k], a["v"]):
                    p[x] = vals[v]
                self.h[h], self.kind[h], self.state[h] = P.new(self.cls[k], p), k, p
                continue
            k = self.kind[h]
            c = self.cls[k]
            if a["a"] == "set" and c != HN:
                x, vals = self.slots[k][a["x"] - 1]
                P.set(self.h[h], self.name(k, a["x"]), vals[a["y"]])
                self.state[h] = dict(self.state[h], **{x: vals[a["y"]]})
            elif a["a"] == "copy":
                if c == HN:
                    self.h[a["g"]] = P.new(c, self.state[h])
                else:
                    self.h[a["g"]] = P.copy(self.h[h])
                self.kind[a["g"]], self.state[a["g"]] = k, dict(self.state[h])
            elif a["a"] == "drop":
                for d in (self.h, self.kind, self.state):
                    d.pop(h)
            elif a["a"] == "refuse" and c != HN:
                bad = [x for x in ALLNAMES if x not in self.base[k] and not (c == "Black76Option" and x in ("S", "b"))
                       and not (c in TREES2 and x in ("K2",)) and not (x == "sigma")]
                if c in (RGW, BAW, BS93) and rng.random() < 0.6:
                    P.set(self.h[h], rng.choice(list(self.base[k])), np.array([1.0, 2.0]))
                else:
                    P.set(self.h[h], rng.choice(bad), 1.5)
            elif a["a"] == "ask":
                self.ask(h, a["q"])

    def ask(self, h, q):
        P, rng, c = self.P, self.rng, self.cls[self.kind[h]]
        if q == "price":
            m = self.side(self.kind[h])
            P.call(self.h[h], m, **({"tree": True} if c in TREES1 + TREES2 and rng.random() < 0.4 else {}))
        elif q == "greek":
            m, kw = self.greek(self.kind[h])
            P.call(self.h[h], m, **kw)
        elif q == "vol" and (c in GBS or c == RGW) and not self.arr:
            a = P.call(self.h[h], "call")
            P.call(self.h[h], "volatility", price=Ref(a, slightly_more))
        elif q == "report" and c != HN:
            P.call(self.h[h], rng.choice(["__str__", "__repr__"]))
        elif c != HN:
            P.call(self.h[h], "get_params")
        if q == "report" and c in TREES1 and rng.random() < 0.1:
            P.fn("plot", h=self.h[h], call=True, digits=2, dx=0.1, dy=0.1)

    def audit(self):
        """What the objects answer in the end, and what new ones do."""
        P, rng = self.P, self.rng
        todo = []
        for h in self.h:
            c = self.cls[self.kind[h]]
            qs = [(m, {}) for m in sides(c)] + [self.greek(self.kind[h])]
            if c in TREES1 + TREES2 and rng.random() < 0.3:
                qs.append((rng.choice(sides(c)), {"tree": True}))
            if c != HN:
                P.call(self.h[h], "get_params")
                qs.append(("__repr__" if rng.random() < 0.5 else "__str__", {}))
            if rng.random() < 0.5:
                rng.shuffle(qs)
            for m, q in qs:
                P.call(self.h[h], m, **q)
            todo.append((c, self.state[h], qs))
        for c, p, qs in todo:
            g = P.new(c, p)
            for m, q in qs:
                P.call(g, m, **q)
        P.kept()


def histories(ctx, depth=12, long=0):
    if long:
        r = tlc.run("SessionGen", "SessionGen.cfg", subst={"@DEPTH@": str(depth), "@LONG@": "TRUE", "@VIEW@": ""},
                    extra=["-simulate", "num=%d" % long, "-depth", str(depth + 1), "-seed", str(ctx.seed)])
    else:
        r = tlc.run("SessionGen", "SessionGen.cfg", subst={"@DEPTH@": str(depth), "@LONG@": "FALSE", "@VIEW@": "VIEW View"}, workers=1)
    if not r["ok"]:
        raise tlc.MachineryError("SessionGen: " + r["raw"][-3000:])
    ctx.count(r)
    hs = tlc.messages(r["out"], "H")
    if not hs:
        raise tlc.MachineryError("SessionGen printed nothing")
    hs.sort(key=repr)
    ctx.points += len(hs)
    return hs


def session_design(ctx):
    r = tlc.run("Session", "Session.cfg", subst={"@DEPTH@": str(ctx.n(5, 6)), "@LAZY@": "FALSE"})
    yield "Session (constructor re-derives)", r
    r2 = tlc.run("Session", "Session.cfg", subst={"@DEPTH@": "4", "@LAZY@": "TRUE"})
    r2["ok"] = "is violated" in r2["raw"]
    yield "Session with stale derived values (must fail)", r2


@suite("C02", design=session_design)
def c02(ctx):
    rng = ctx.rng
    progs = []
    hs = histories(ctx)
    hs = [h for h in hs if any(a["a"] != "new" for a in h)]
    full = hs * 2 if not ctx.quick else rng.sample(hs, 1500)
    longs = histories(ctx, ctx.n(14, 24), ctx.n(40, 400))
    longs = rng.sample(longs, min(len(longs), ctx.n(300, 6000)))
    turn = {"k": 0}

    def pair():
        """classes for the two kinds: every class in turn, the second often related to the first"""
        turn["k"] += 1
        a = SETTABLE[turn["k"] % len(SETTABLE)]
        fam = [f for f in (GBS, TREES1, TREES2, [BAW, BS93, RGW]) if a in f]
        b = rng.choice(fam[0]) if fam and rng.random() < 0.5 else rng.choice(ALL if rng.random() < 0.2 else SETTABLE)
        return {1: a, 2: b}

    for hist in full + longs:
        cs = pair()
        P = Prog("history " + cs[1])
        B = Bind(ctx, P, cs)
        B.play(hist)
        B.audit()
        progs.append(dict(P.done(), scribble=rng.random() < 0.5))     # half the callers overwrite what they are given
    for hist in rng.sample(hs, ctx.n(250, 4000)):          # arrays
        cs = {1: rng.choice(ARRAYS), 2: rng.choice(ARRAYS)}
        P = Prog("history with arrays " + cs[1])
        B = Bind(ctx, P, cs, True)
        B.play(hist)
        B.audit()
        progs.append(dict(P.done(), scribble=rng.random() < 0.5))     # half the callers overwrite what they are given
    for _ in range(ctx.n(40, 400)):                        # the caller's own array changes after the copy
        c = rng.choice(ARRAYS)
        p = arrays(rng, params(rng, c), 3, keep=("b", "rho"))
        x = rng.choice([k for k in p if isinstance(p[k], np.ndarray)])
        P = Prog("copy of arrays")
        h = P.new(c, p)
        g = P.copy(h)
        P.poke(h, x, 1.0)
        P.call(g, "get_params")
        f = P.new(c, p)
        for m, q in [("call", {}), ("put", {})] + [greek_of(rng, c)]:
            P.call(g, m, **q)
            P.call(f, m, **q)
        progs.append(P.done())
    for _ in range(ctx.n(60, 600)):                        # the caller changes his array, and passes it again
        c = rng.choice(ARRAYS)
        p = arrays(rng, params(rng, c), rng.choice([2, 3, 7]), keep=("b", "rho"))
        x = rng.choice([k for k in p if isinstance(p[k], np.ndarray)])
        P = Prog("array passed again")
        h = P.new(c, p)
        qs = [("call", {}), ("put", {}), greek_of(rng, c)]
        for m, q in rng.sample(qs, 2):
            P.call(h, m, **q)
        q = {k: np.array(v) if isinstance(v, np.ndarray) else v for k, v in p.items()}
        q[x][0] *= 1.04
        P.again(h, x, q[x][0])
        f = P.new(c, q)
        for m, a in [("get_params", {})] + qs:
            P.call(h, m, **a)
            P.call(f, m, **a)
        P.kept()
        progs.append(P.done())
    return progs


# ---------------------------------------------------------------------------
@suite("C23")
def c23(ctx):
    rng = ctx.rng
    progs = []
    r = tlc.run("Requests", "Requests.cfg")
    if not r["ok"]:
        raise tlc.MachineryError("Requests: " + r["raw"][-3000:])
    ctx.count(r)
    rqs = sorted(tlc.messages(r["out"], "RQ"), key=repr)
    ctx.points += len(rqs)

    def check(P, h, c, p, qs):
        """h is as if nothing had happened"""
        if c != HN:
            P.call(h, "get_params")
        f = P.new(c, p)
        for m, q in qs:
            P.call(h, m, **q)
            P.call(f, m, **q)

    def strange(c, x):
        return rng.choice([1.5, 1, None, np.array([1.0, 2.0])])

    for rq in rqs * ctx.n(1, 6):
        c, x, kind = rq["c"], rq["x"], rq["kind"]
        P = Prog("%s %s %s %s" % (c, rq["a"], kind, x))
        p = params(rng, c)
        qs = [(m, {}) for m in sides(c)] + ([greek_of(rng, c)] if rng.random() < 0.4 else [])
        if rq["a"] == "new":
            bad = dict(p)
            if kind == "missing":
                bad.pop(x, None)
            elif kind == "unknown":
                bad[x] = strange(c, x)
            else:
                bad[x] = np.array([bad[x], bad[x] * 1.01])[: 2 if kind == "array" else 1]
            h = P.new(c, p)
            P.new(c, bad)
            if rng.random() < 0.5:
                check(P, h, c, p, qs)
        elif rq["a"] == "set":
            h = P.new(c, p)
            before = rng.random() < 0.5
            if before:
                P.call(h, *[qs[0][0]])
            if kind == "unknown":
                P.set(h, x, strange(c, x))
            else:
                v = np.array([p[x], p[x] * 1.01, p[x] * 1.02])[: rng.choice([2, 3]) if kind == "array" else 1]
                P.set(h, x, v)
                if kind == "one":
                    P.set(h, x, p[x])
            check(P, h, c, p, qs)
            y = rng.choice(names(c, p))             # and it can still be changed
            v = other(rng, p, y, c)
            P.set(h, y, v)
            check(P, h, c, dict(p, **{y: v}), qs[:2])
        elif kind == "no volatility":
            q = {k: v for k, v in p.items() if k != "sigma"}
            how = rng.randrange(3)
            h = P.new(c, q if how else dict(q, sigma=None))
            if how == 2:
                P.set(h, "sigma", p["sigma"])
                P.call(h, "call")
                P.set(h, "sigma", None)
            for side in (True, False):
                kw = {"call": side} if x in ("delta", "theta", "rho", "lamb", "c_of_c", "greeks") else {}
                P.call(h, x, **kw)
                if x not in ("call", "put", "c_of_c", "greeks"):
                    P.call(h, x, **dict(kw, method="fdm"))
            y = rng.choice([k for k in q])
            v = other(rng, q, y, c)
            P.set(h, y, v)
            P.call(h, x)
            P.set(h, y, q[y])
            P.set(h, "sigma", p["sigma"])
            check(P, h, c, p, qs + ([(x, {})] if x not in ("call", "put") else []))
        else:
            p = dict(p)
            for b in (0.04, -0.001, 0.0):
                if c != "Black76Option":
                    p["b"] = b
                h = P.new(c, p)
                for side in (True, False):
                    P.call(h, "rho", call=side, method="fdm")
                check(P, h, c, p, qs)
            if c != "Black76Option":            # a carry of zero for some elements only, or for all
                n = rng.choice([2, 3, 7])
                for b in ([0.0, 0.03, -0.02, 0.05, 0.0, 0.01, 0.02], [0.02] * 6 + [0.0], [0.0] * 7):
                    a = np.array(b[-n:] if rng.random() < 0.5 else b[:n])
                    if not a.any() and b[1]:
                        continue
                    h = P.new(c, dict(p, b=a))
                    P.call(h, "rho", call=rng.random() < 0.5, method="fdm")
                    P.call(h, "call")
                    g = P.new(c, dict(p, b=a.copy()))
                    P.call(g, "call")
        P.kept()
        progs.append(P.done())
    return progs


# ---------------------------------------------------------------------------
def report_session(ctx, c, p, hows, sid=None):
    rng = ctx.rng
    P = Prog(sid or c)
    h = P.new(c, p)

    def ask():
        P.call(h, "get_params")
        for m in sides(c):
            P.call(h, m)
        for how in hows:
            P.fn("report", h=h, how=how)
    ask()
    if rng.random() < 0.6:
        xs = rng.sample(names(c, p), 1)
        for x in xs:
            if not isinstance(p[x], np.ndarray):
                P.set(h, x, other(rng, p, x, c))
        ask()
    progs = P.done()
    return progs


HOWS = ["text", "str", "print", "printed", "repr"]


def odd_numbers(rng, c, p):
    """integers, large and small numbers, negative zero ..."""
    q = dict(p)
    for x in q:
        if x in DISCRETE or q[x] is None:
            continue
        r = rng.random()
        if r < 0.2 and x in ("S", "K", "FT", "S1", "S2", "t", "Q1", "Q2", "D"):
            q[x] = max(1, int(round(q[x])))
        elif r < 0.3 and x in ("b", "b1", "b2", "rho"):
            q[x] = 0
    if c == RGW:
        q["td"] = min(float(q["td"]), 0.5 * float(q["t"]))
    if "T" in q:
        q["T"] = q["t"] + 0.5
    return q


@suite("C24")
def c24(ctx):
    rng = ctx.rng
    progs = []
    for c in SETTABLE:
        for _ in range(ctx.n(16, 400)):
            p = params(rng, c)
            if rng.random() < 0.5:
                p = odd_numbers(rng, c, p)
            if c in (BAW, BS93) and not (bs93_ok(p, 1) and bs93_ok(p, -1)):
                continue
            if rng.random() < 0.25 and c not in (MS_CLS,) and c not in TREES2:       # spot and strike of other sizes
                k = rng.choice([1e-3, 37.0, 1e4])
                p = {x: (v * k if x in ("S", "K", "FT", "D", "S1", "S2") and v is not None else v) for x, v in p.items()}
            progs.append(report_session(ctx, c, p, HOWS if rng.random() < 0.4 else rng.sample(HOWS, 2)))
    for c in ["GBSOption", "BlackScholesOption", "Black76Option"]:      # no volatility: no prices
        for _ in range(ctx.n(6, 100)):
            p = params(rng, c)
            p.pop("sigma")
            progs.append(report_session(ctx, c, p, HOWS, c + " without volatility"))
    for c in ARRAYS:
        for n in (2, 3, 5, 6, 7, 8, 12, 40):
            for _ in range(ctx.n(2, 30)):
                p = arrays(rng, params(rng, c), n, keep=() if rng.random() < 0.5 else ("b", "b1", "b2", "r"))
                progs.append(report_session(ctx, c, p, HOWS, "%s arrays of %d" % (c, n)))
    return progs


# ---------------------------------------------------------------------------
@suite("C25")
def c25(ctx):
    rng = ctx.rng
    progs = []
    for c in TREES1:
        for ty in ("european", "american"):
            for n in (1, 2, 3, 4, 5, 6, 9, rng.randint(10, 14), rng.randint(15, 21)):
                for side in (True, False):
                    for _ in range(ctx.n(1, 12)):
                        p = split(rand_tree(rng, 5, c))[1]
                        p.update(n=n, type=ty)
                        p["K"] = p["S"] * rng.uniform(0.8, 1.2)
                        P = Prog("%s %s n=%d %s" % (c, ty, n, "call" if side else "put"))
                        h = P.new(c, p)
                        if rng.random() < 0.4:
                            x = rng.choice(names(c, p))
                            v = other(rng, p, x, c)
                            if x != "n" or n < 8:
                                P.fn("plot", h=h, call=side if rng.random() < 0.5 else not side, digits=1, dx=0.0, dy=0.0)
                            P.set(h, x, v)
                        P.fn("plot", h=h, call=side, digits=rng.randrange(5), dx=rng.choice([0.0, 0.1, -0.2]), dy=rng.choice([0.0, 0.2, 0.4]))
                        P.call(h, "get_params")
                        progs.append(P.done())
    return progs


# ---------------------------------------------------------------------------
def usual(rng, cls, p):
    """Documented defaults, often"""
    p = dict(p)
    for x, v in (("Q1", 1), ("Q2", 1), ("type", "european"), ("otype", "european"), ("n", 5), ("option", 1)):
        if x in p and rng.random() < 0.5:
            p[x] = v
    return p


@suite("C27")
def c27(ctx):
    """The same request, put in several ways (the wordings are chosen by the recorder)."""
    rng = ctx.rng
    progs = []

    def add(P):
        progs.append(dict(P.done(), wordy=True))

    for cls in ALL:
        for _ in range(ctx.n(20, 150)):
            p = usual(rng, cls, params(rng, cls))
            tree = cls in TREES1 + TREES2
            qs = [(m, dict(tree=rng.random() < 0.3) if tree else {}) for m in sides(cls)]
            if cls in GBS:
                for m in ("delta", "theta", "lamb", "vega", "gamma", "c_of_c", "greeks", "rho"):
                    q = {} if m in ("vega", "gamma") else dict(call=rng.random() < 0.6)
                    if m not in ("c_of_c", "greeks"):
                        q["method"] = "analytic" if rng.random() < 0.7 or m == "rho" else "fdm"
                    qs.append((m, q))
            elif cls == HN:
                qs += [("delta", dict(call=rng.random() < 0.6)), ("gamma", {})]
            elif cls != RGW:
                ms = [m for m in GREEKS if not (cls == MS_CLS and m == "rho")]
                qs += [(m, {} if m in ("vega", "gamma") else dict(call=rng.random() < 0.6)) for m in (rng.sample(ms, 3) if tree else ms)]
            P = Prog("wordings " + cls)
            h = P.new(cls, p)
            a = P.call(h, "call", **({"tree": False} if tree else {}))
            hs = [h, P.new(cls, p), P.new(cls, p)]
            if cls != HN:
                x = rng.choice([x for x in names(cls, p) if x not in DISCRETE])
                v = p[x]
                P.set(h, x, slightly_more(v) if x not in CORR else v)
                P.set(h, x, v)
            if cls in GBS + [RGW]:
                q = dict(price=Ref(a), verbose=rng.random() < 0.3, maxiter=rng.choice([10000, 5000]))
                if cls != RGW:
                    q["call"] = True
                if rng.random() < 0.7:
                    q["tol"] = 1e-12
                qs.append(("volatility", q))
            for m, a in rng.sample(qs, min(len(qs), ctx.n(5, 9))):
                for g in hs:
                    P.call(g, m, **a)
            if cls != HN:
                P.call(hs[1], "get_params")
            if cls in TREES1:
                for g in hs[1:]:
                    P.fn("plot", h=g, call=rng.random() < 0.6, digits=rng.choice([2, 2, 3]), dx=0.1, dy=0.2)
            add(P)
    import suites_sim as sim
    for k in range(ctx.n(90, 600)):
        p = sim.market(rng)
        l, n = rng.choice([1, 2, 5]), rng.randint(2, 8)
        P = Prog("wordings simulation")
        for _ in range(2):
            P.fn("wiener", eps=sim.matrix(rng, n, l), sigma=p["sigma"], dt=p["t"] / l, b=p["b"])
            P.fn("payoff", kind=rng.choice(["PlainVanillaPayoff", "ArithmeticAsianPayoff"]), inc=sim.matrix(rng, n, l, p["sigma"] * math.sqrt(p["t"] / l)), **p)
            P.fn("mc", kind=rng.choice(["PlainVanillaPayoff", "ArithmeticAsianPayoff"]), m=rng.choice(sides(SPREAD)), eps=sim.matrix(rng, n, l),
                 mc_loops=rng.randint(1, 3), path_length=l, mc_paths=n, antithetic=rng.random() < 0.4, standardization=rng.random() < 0.4, **p)
            P.fn("engine", m=rng.choice(sides(SPREAD)), key=len(P.ops), mc_loops=rng.randint(1, 4), path_length=l, mc_paths=n,
                 antithetic=rng.random() < 0.4, standardization=rng.random() < 0.4, trace=rng.random() < 0.4,
                 eps=sim.matrix(rng, n, l) if rng.random() < 0.4 else None, special=None, at=1, **p)
            P.fn("innovations", key=len(P.ops), mc_paths=n, path_length=rng.choice([1, 2, 5]), scramble=False, eps=None, faults=0, kind="low")
            k, q = len(P.ops), dict(mc_paths=2 ** rng.randint(1, 4), path_length=rng.choice([1, 2, 5]))
            for _ in range(2):
                P.fn("innovations", key=k, scramble=True, eps=None, faults=0, kind="low", **q)
        add(P)
    for k in range(ctx.n(60, 600)):
        p = dict(sim.garch(rng), **{x: v for x, v in dict(lamb=-0.5, beta=0.1, gamma=0, rf=0).items() if rng.random() < 0.4})
        if p["beta"] + p["alpha"] * p["gamma"] ** 2 > 0.97:
            p["gamma"] = 0
        n, s = rng.choice([500, 3, 40]), rng.choice([0, 0, 2, 15])
        P = Prog("wordings GARCH simulation")
        for _ in range(2):
            P.fn("hnsim", n=n, n_start=s, inno=np.array([rng.gauss(0, 1) for _ in range(n)]),
                 inno_start=np.array([rng.gauss(0, 1) for _ in range(s)]) if s else None, seed=k, **p)
        add(P)
    progs += [dict(x, id="wordings " + x["id"], wordy=True) for x in rng.sample(sim.c21(ctx), ctx.n(60, 150))]
    return progs

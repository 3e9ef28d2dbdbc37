"""Parameter generators: the regimes come from Scenarios.tla, these move around and between them."""
import math

import numpy as np

GBS = ["GBSOption", "BlackScholesOption", "Black76Option"]
TREES1 = ["CRRBinomialTreeOption", "JRBinomialTreeOption", "TIANBinomialTreeOption", "TrinomialTreeOption"]
TREES2 = ["BionomialSpreadAllTypes", "BionomialMaxOption", "BionomialMinOption", "BionomialSpreadOption"]
MS_CLS, SPREAD, RGW, BAW, BS93, HN = ("MiltersenSchwartzOption", "SpreadApproxOption", "RollGeskeWhaleyOption",
                                      "BAWAmericanApproxOption", "BSAmericanApproxOption", "HestonNandiOption")
CORR = {"rho", "rhoSE", "rhoSF", "rhoEF"}
RATES = {"r", "b", "b1", "b2"}
DISCRETE = {"n", "type", "otype", "option", "cls"}


def gbs_args(cls, p):
    q = dict(p)
    if cls == "Black76Option":
        q["FT"] = q.pop("S")
        q.pop("b", None)
    return q


def jitter(rng, p, names=None, amount=0.1):
    q = dict(p)
    for x in names or [y for y in p if y not in DISCRETE]:
        if q[x] is None:
            continue
        q[x] = q[x] * (1 + rng.uniform(-amount, amount))
        if x in CORR:
            q[x] = max(-0.99, min(0.99, q[x]))
    return q


def wide_strike(rng, S, s, t, w=1.5):
    if rng.random() < 0.15:
        return S
    return S * math.exp(max(-12.0, min(12.0, rng.gauss(0, w) * s * math.sqrt(t))))


def rare(rng, usual, *others, chance=0.08):
    """Mostly the usual value, now and then one far from it (values are thunks)."""
    return rng.choice(others)() if rng.random() < chance else usual


def numbers(rng, p, names=("S", "K", "t", "r", "b", "sigma"), chance=0.1):
    """Integers and numpy scalars are numbers too."""
    if rng.random() < chance:
        q = dict(p)
        how = rng.randrange(3)
        for x in names:
            if x not in q or q[x] is None:
                continue
            if how == 0 and x not in RATES and x not in ("sigma", "D", "td"):
                q[x] = max(1, round(q[x]))
            elif how == 1:
                q[x] = np.float64(q[x])
            elif how == 2 and x in ("S", "K", "FT") and q[x] >= 1:
                q[x] = np.int64(round(q[x]))
        return q
    return p


def rand_gbs(rng):
    """Wide random parameters, with the special places (S = K, b = 0, b = r, r = 0) over-represented."""
    S = rng.choice([0.01, 1.0, 10.0, 100.0, 100.0, 5000.0]) * rng.uniform(0.5, 1.5)
    S = rare(rng, S, lambda: 10 ** rng.uniform(-4, -2), lambda: 10 ** rng.uniform(4, 6))
    s = rare(rng, rng.uniform(0.03, 1.0), lambda: rng.uniform(1, 3), lambda: rng.uniform(0.004, 0.03))
    t = rng.choice([rng.uniform(0.003, 0.1), rng.uniform(0.1, 1.0), rng.uniform(1.0, 10.0)])
    t = rare(rng, t, lambda: rng.uniform(10, 30), lambda: rng.uniform(1e-4, 0.003))
    K = wide_strike(rng, S, s, t)
    r = rng.choice([0.0, rng.uniform(-0.03, 0.2), rng.uniform(0.0, 0.1)])
    r = rare(rng, r, lambda: rng.uniform(-0.2, 0.5), lambda: rng.choice([-1, 1]) * 10 ** rng.uniform(-8, -3), chance=0.05)
    b = rng.choice([0.0, r, rng.uniform(-0.1, 0.2)])
    b = rare(rng, b, lambda: -r, lambda: rng.uniform(-0.4, 0.5), lambda: rng.choice([-1, 1]) * 10 ** rng.uniform(-8, -3), chance=0.05)
    p = dict(S=S, K=K, t=t, r=r, b=b, sigma=s)
    if rng.random() < 0.03:
        p["sigma"] = rng.choice([1, 2])
    return numbers(rng, p)


def rand_ms(rng):
    while True:
        t = rng.choice([rng.uniform(0.01, 0.2), rng.uniform(0.2, 2)])
        T = t * rng.choice([1.0, rng.uniform(1, 4)])
        sS, sE, sF = rng.uniform(0.1, 0.7), rng.uniform(0.005, 0.5), rng.uniform(0.005, 0.3)
        a, b, c = (rng.uniform(-0.9, 0.9) for _ in range(3))
        if 1 + 2 * a * b * c - a * a - b * b - c * c < 0.02:
            continue            # not a correlation matrix
        FT = rng.choice([5, 95, 2000]) * rng.uniform(0.7, 1.3)
        kE, kF = rng.uniform(0.2, 3), rng.uniform(0.1, 2)
        if rng.random() < 0.1:
            kE = kF                                 # equal speeds of reversion
        sS = rare(rng, sS, lambda: rng.uniform(0.7, 1.5))
        if rng.random() < 0.06:
            t, T = t * 4, T * rng.choice([4, 10])
        return dict(Pt=rng.uniform(0.7, 1.0), FT=FT, K=wide_strike(rng, FT, sS, t, 1.2), t=t, T=T, sigmaS=sS, sigmaE=sE, sigmaF=sF,
                    rhoSE=a, rhoSF=b, rhoEF=c, KappaE=kE, KappaF=kF)


def rand_two(rng, K=None):
    c = rare(rng, 1, lambda: 0.01, lambda: 50)
    S1, S2 = c * rng.uniform(40, 160), c * rng.uniform(40, 160)
    S2 = rare(rng, S2, lambda: S1, lambda: S1 / 8, lambda: S1 * 8)
    rho = rare(rng, rng.choice([0.0, rng.uniform(-0.98, 0.95)]), lambda: -1.0, lambda: -1, lambda: 0, chance=0.05)
    s1 = rare(rng, rng.uniform(0.08, 0.7), lambda: rng.uniform(0.7, 1.5))
    s2 = rare(rng, rng.uniform(0.08, 0.7), lambda: rng.uniform(0.7, 1.5), lambda: s1 if rho < 0.9 else 0.5)
    p = dict(S1=S1, S2=S2, K=rng.choice([0.0, 0.0, c * rng.uniform(1, 40)]) if K is None else K,
             t=rare(rng, rng.uniform(0.05, 3), lambda: rng.uniform(3, 12), lambda: rng.uniform(0.002, 0.05)),
             r=rng.choice([0.0, rng.uniform(0, 0.12), rng.uniform(-0.03, 0.1)]), b1=rng.choice([0.0, rng.uniform(-0.06, 0.1)]), b2=rng.choice([0.0, rng.uniform(-0.06, 0.1)]),
             sigma1=s1, sigma2=s2, rho=rho, Q1=rng.choice([1, rng.uniform(0.5, 2)]), Q2=rng.choice([1, rng.uniform(0.5, 2)]))
    if rng.random() < 0.25:             # a coincidence
        x = rng.choice(["S", "S", "sigma", "Q"])
        p[x + "2"] = p[x + "1"] if x != "sigma" or rho < 0.9 else p["sigma2"]
    if rng.random() < 0.07:             # nearly the same asset
        p.update(rho=rng.uniform(0.9, 0.995), sigma2=s1 * rng.uniform(0.97, 1.03), S2=S1 * rng.uniform(0.95, 1.05))
    p["Q1"] = rare(rng, p["Q1"], lambda: 10, lambda: 3, lambda: 0.1)
    p["Q2"] = rare(rng, p["Q2"], lambda: 10, lambda: 2, lambda: 0.2)
    if rng.random() < 0.08:
        p["b2"] = p["b1"] = rng.uniform(-0.06, 0.1)
    if rng.random() < 0.1:
        p["r"] = p["b1"] = p["b2"]
    if K is None and rng.random() < 0.08:       # a strike below zero; the formula needs Q2 F2 + K > 0
        p["K"] = -rng.uniform(0.01, 0.4) * p["Q2"] * p["S2"] * math.exp(p["b2"] * p["t"])
    return numbers(rng, p, ("S1", "S2", "K"))


def rand_rgw(rng):
    c = rare(rng, 100, lambda: 1, lambda: 4000, lambda: 10 ** rng.uniform(4, 6.5), chance=0.12)
    S = c * rare(rng, rng.uniform(0.6, 1.4), lambda: rng.uniform(1.5, 3.5), chance=0.12)
    t = rare(rng, rng.uniform(0.1, 1.5), lambda: rng.uniform(1.5, 5))
    D = rng.choice([rng.uniform(0.2, 3), rng.uniform(2, 14)])
    return numbers(rng, dict(S=S, K=c * rng.uniform(0.7, 1.3), t=t, td=t * rare(rng, rng.uniform(0.05, 0.9), lambda: rng.uniform(0.005, 0.05), lambda: rng.uniform(0.9, 0.995)),
                             r=rare(rng, rng.uniform(0.005, 0.15), lambda: 10 ** rng.uniform(-6, -3)),
                             D=c / 100 * rare(rng, D, lambda: rng.uniform(14, 35), lambda: 0.0), sigma=rare(rng, rng.uniform(0.1, 0.7), lambda: rng.uniform(0.7, 1.2))), ("S", "K"))


def rand_american(rng):
    t = rng.choice([rng.uniform(0.03, 0.3), rng.uniform(0.3, 3)])
    t = rare(rng, t, lambda: rng.uniform(3, 10), lambda: rng.uniform(0.003, 0.03), chance=0.1)
    s = rare(rng, rng.uniform(0.1, 0.8), lambda: rng.uniform(0.8, 1.5))
    r = rare(rng, rng.uniform(0.01, 0.15), lambda: rng.uniform(0.15, 0.35), lambda: 10 ** rng.uniform(-2.9, -2))
    b = rng.choice([0.0, r, rng.uniform(-0.08, r), rng.uniform(0, r), rng.uniform(-0.08, r + 0.04)])
    b = rare(rng, b, lambda: -r, lambda: r * (1 - 10 ** rng.uniform(-5, -1)), lambda: r + 0.1, chance=0.06)
    S = rng.choice([1, 100, 3000]) * rng.uniform(0.8, 1.2)
    S = rare(rng, S, lambda: 10 ** rng.uniform(-3, -1), lambda: 10 ** rng.uniform(4, 5.5))
    return numbers(rng, dict(S=S, K=wide_strike(rng, S, s, t, 1.0), t=t, r=r, b=b, sigma=s))


def bs93_ok(p, z):
    """The flat boundary exists: the option is European, or the trigger lies above the (transformed) strike."""
    r, b = (p["r"], p["b"]) if z == 1 else (p["r"] - p["b"], -p["b"])
    if b >= r:
        return True
    return b * p["t"] + 2 * p["sigma"] * math.sqrt(p["t"]) > 0.01 and r > 0.001


def rand_tree(rng, nmax=12, cls=None, drift=0.0):
    t = rng.choice([rng.uniform(0.05, 0.5), rng.uniform(0.5, 3)])
    t = rare(rng, t, lambda: rng.uniform(3, 10), chance=0.05)
    s = rare(rng, rng.uniform(0.08, 0.8), lambda: rng.uniform(0.8, 1.4), lambda: rng.uniform(0.02, 0.08))
    r = rng.choice([0.0, rng.uniform(0.01, 0.15), rng.uniform(-0.02, 0.12)])
    b = rng.choice([0.0, r, rng.uniform(-0.08, 0.12)])
    b = rare(rng, b, lambda: -r, lambda: rng.uniform(-0.25, 0.3), chance=0.05)
    if rng.random() < 0.06:
        r = rng.choice([-1, 1]) * 10 ** rng.uniform(-6, -3)
    S = rng.choice([1, 100, 2500]) * rng.uniform(0.7, 1.3)
    n = rng.randint(1, nmax)
    if rng.random() < drift:            # drift beyond the volatility of a step: no probabilities
        n = rng.randint(1, min(nmax, 6))
        s = rng.uniform(0.03, 0.2)
        b = rng.choice([-1, 1]) * s * rng.uniform(0.8, 2.5) / math.sqrt(t / n)
    p = dict(S=S, K=wide_strike(rng, S, s, t, 1.0), t=t, r=r, b=b, sigma=s, n=n,
             type=rng.choice(["european", "american"]), cls=cls or rng.choice(TREES1))
    return numbers(rng, p)


def split(p):
    """(class, constructor arguments) of a tree scenario"""
    q = dict(p)
    return q.pop("cls"), q


NOK2 = (4, 5, 6, 7, 8, 9)


def rand_tree2(rng, nmax=8, option=None):
    p = rand_two(rng, K=rare(rng, rng.uniform(1, 160), lambda: 0.0, lambda: 0))
    p.update(K2=rare(rng, rng.uniform(40, 160), lambda: 0.0, lambda: p["K"]), n=rng.randint(1, nmax), otype=rng.choice(["european", "american"]),
             option=option or rng.randint(1, 9), rho=rare(rng, rng.choice([0.0, rng.uniform(-0.95, 0.95)]), lambda: 1.0, lambda: -1.0, lambda: 1, chance=0.05))
    if rng.random() < 0.08 and p["option"] != 8:
        p[rng.choice(["Q1", "Q2"])] = rng.choice([0, 0.0])
    return p


def tree2_class(cls, p):
    q = dict(p)
    if cls != "BionomialSpreadAllTypes":
        q.pop("option")
        q.pop("K2", None)
    return q


def rand_hn(rng, long=False):
    while True:
        gamma, beta = rng.choice([0.0, rng.uniform(-20, 150)]), rng.uniform(0.05, 0.9)
        alpha, omega = rng.choice([1e-6, 5e-6, 3e-5]) * rng.uniform(0.5, 2), rng.choice([1e-6, 1e-5, 8e-5]) * rng.uniform(0.5, 2)
        lamb = rng.uniform(-1, 6)
        gs = gamma + lamb + 0.5
        pers = beta + alpha * gs * gs
        if pers > 0.97:
            continue
        var = (omega + alpha) / (1 - pers)
        if not 2e-5 < var < 6e-4 or omega + beta * var < 0.3 * var:
            continue
        t = rng.choice([1, 2, 2, 3, 3, 5, 10, rng.choice([20, 60, 130]) if not long else rng.choice([60, 120, 250, 400])])
        K = 100 * math.exp(rare(rng, rng.uniform(-1.5, 1.5), lambda: rng.uniform(-4, 4), chance=0.15) * math.sqrt(var * t))
        return dict(S=100 * rng.uniform(0.95, 1.05), K=K, t=t, r=rng.choice([0.0, 0.0002, rng.uniform(-0.0003, 0.001)]), lamb=lamb, omega=omega, alpha=alpha, beta=beta, gamma=gamma)


def arrays(rng, p, n, names=None, amount=0.12, keep=()):
    """Some parameters replaced by arrays of length n around their value."""
    cand = [x for x in p if x not in DISCRETE and x not in keep and p[x] is not None]
    names = names or rng.sample(cand, rng.randint(1, len(cand)))
    q = dict(p)
    for x in names:
        if x in RATES and rng.random() < 0.4:
            a = np.array([rng.choice([0.0, p[x], 0.05]) for _ in range(n)])
        else:
            a = np.array([p[x] * (1 + rng.uniform(-amount, amount)) for _ in range(n)], dtype=float)
        if x in CORR:
            a = np.clip(a, -0.97, 0.97)
        if x in ("S", "K", "FT", "S1", "S2") and np.min(np.abs(a)) >= 20 and rng.random() < 0.2:
            a = np.round(a).astype(int)
        if rng.random() < 0.1:              # every other element of a larger array
            a = np.repeat(a, 2)[::2]
        q[x] = a
    return q

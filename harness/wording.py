"""How a request is put: which arguments go by place, which by name, which are left to their default.

Only the wording is chosen here.  That it means what the session says - the order of the places and
the values of what is left out - is checked on every recorded request by Wording.tla.
"""
import random
import zlib

import numpy

TREE1 = ("S", "K", "t", "r", "b", "sigma", "type", "n")
GBS = ("S", "K", "t", "r", "b", "sigma")
TWO = ("S1", "S2", "K", "t", "r", "b1", "b2", "sigma1", "sigma2", "rho", "Q1", "Q2")
PLACES = {
    "GBSOption": GBS, "BlackScholesOption": GBS, "BAWAmericanApproxOption": GBS, "BSAmericanApproxOption": GBS,
    "Black76Option": ("FT", "K", "t", "r", "sigma"),
    "MiltersenSchwartzOption": ("Pt", "FT", "K", "t", "T", "sigmaS", "sigmaE", "sigmaF", "rhoSE", "rhoSF", "rhoEF", "KappaE", "KappaF"),
    "RollGeskeWhaleyOption": ("S", "K", "t", "td", "r", "D", "sigma"),
    "CRRBinomialTreeOption": TREE1, "JRBinomialTreeOption": TREE1, "TIANBinomialTreeOption": TREE1, "TrinomialTreeOption": TREE1,
    "SpreadApproxOption": TWO,
    "BionomialMaxOption": TWO + ("otype", "n"), "BionomialMinOption": TWO + ("otype", "n"), "BionomialSpreadOption": TWO + ("otype", "n"),
    "BionomialSpreadAllTypes": ("S1", "S2", "t", "r", "b1", "b2", "sigma1", "sigma2", "rho", "K", "K2", "Q1", "Q2", "option", "otype", "n"),
    "HestonNandiOption": ("S", "K", "t", "r", "lamb", "omega", "alpha", "beta", "gamma"),
    "MonteCarloOption": ("mc_loops", "path_length", "mc_paths", "S", "K", "t", "r", "b", "sigma", "Innovation", "Path", "Payoff",
                         "trace", "antithetic", "standardization", "eps"),
    "NormalSobolInnovations": ("mc_paths", "path_length", "eps"), "sample_innovation": ("scramble",),
    "WienerPath": ("epsilon", "sigma", "dt", "b"), "payoff": ("path", "S", "K", "t", "r", "b", "sigma"),
    "hngarch_sim": ("lamb", "omega", "alpha", "beta", "gamma", "rf", "n", "n_start", "inno", "inno_start"),
    "hngarch_fit": ("x", "lamb", "omega", "alpha", "beta", "gamma", "rf", "symmetric", "trace"),
    "set_param": ("x", "value"), "summary": ("printer",), "plot": ("call", "dx", "dy", "size", "digits"),
    "volatility of RGW": ("price", "tol", "maxiter", "verbose"),
    "volatility": ("price", "call", "tol", "maxiter", "verbose"),
    "greeks": ("call",), "c_of_c": ("call",), "call": ("tree",), "put": ("tree",),
    "delta": ("call", "method"), "theta": ("call", "method"), "rho": ("call", "method"), "lamb": ("call", "method"),
    "vega": ("method",), "gamma": ("method",),
}
DEFAULTS = {"call": True, "method": "analytic", "tree": False, "printer": True, "verbose": False, "maxiter": 10000, "scramble": True,
            "type": "european", "otype": "european", "n": 5, "option": 1, "Q1": 1, "Q2": 1, "digits": 2, "size": 12,
            "trace": False, "antithetic": False, "standardization": False}
OPTIONAL = {"hngarch_sim": {"lamb": -0.5, "beta": 0.1, "gamma": 0, "rf": 0, "n": 500, "n_start": 0},
            "hngarch_fit": {"lamb": -0.5, "beta": 0.1, "gamma": 0, "rf": 0, "symmetric": True, "trace": True}}


def numpied(v):
    """The same flag or number, as numpy has it"""
    return numpy.bool_(v) if isinstance(v, bool) else numpy.int64(v) if isinstance(v, int) else numpy.float64(v)


class Teller:
    """Chooses wordings, reproducibly for a program, and notes them."""

    def __init__(self, key, often=0.4):
        self.rng = random.Random(zlib.crc32(key.encode()))
        self.notes = []
        self.often = often

    def put(self, callee, what, q):
        """Calls it with the arguments q, somehow; `what` is the entry of PLACES."""
        q, rng = dict(q), self.rng
        order, defaults = PLACES.get(what, ()), OPTIONAL.get(what, DEFAULTS)
        left = {}
        for x in list(q):
            d = defaults.get(x)
            if x in order and d is not None and type(q[x]) is type(d) and q[x] == d and rng.random() < self.often:
                left[x] = q.pop(x)
        if self.often > 0.5:
            kinds = (bool, float) if order[:1] in (("mc_paths",), ("mc_loops",)) else (bool, int, float)     # scipy's Sobol wants Python's integers
            q = {x: numpied(v) if type(v) in kinds and rng.random() < 0.35 else v for x, v in q.items()}
        known = 0
        while known < len(order) and order[known] in q:
            known += 1
        by = rng.choice([known, rng.randint(1, known)]) if known and rng.random() < self.often else 0
        pos = [q.pop(x) for x in order[:by]]
        if pos or left:
            from rec import enc
            self.notes.append({"f": what, "pos": list(order[:by]), "left": {x: enc(v) for x, v in left.items()}})
        return callee(*pos, **q)

    def taken(self):
        n, self.notes = self.notes, []
        return n


TELLER = Teller("")


def start(key, wordy=False):
    global TELLER
    TELLER = Teller(key, 0.7 if wordy else 0.4)


def put(callee, what, **q):
    return TELLER.put(callee, what, q)

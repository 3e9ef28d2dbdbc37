"""Per property: the design models to check, and the programs to run on the real code.

Everything here only decides WHAT is executed; what is right is decided by the specification.
"""
import math
import random

import numpy as np

import tlc
from rec import Ref, FUNCTIONS


class Context:
    def __init__(self, prop, tier, seed, work):
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.rng = random.Random("%s/%s/%d" % (prop, tier, seed))
        self.states = self.transitions = self.points = 0
        self.quick = tier == "quick"

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def count(self, r):
        self.states += r["states"]
        self.transitions += r["transitions"]

    def scenarios(self, family, quick, thorough):
        """Regime combinations enumerated (and model-checked) by Scenarios.tla."""
        r = tlc.run("Scenarios", "Scenarios.cfg", subst={"@FAMILY@": family, "@WANT@": str(self.n(quick, thorough)),
                                                         "@SEED@": str(self.seed)})
        if not r["ok"]:
            raise tlc.MachineryError("Scenarios %s: %s" % (family, r["raw"][-4000:]))
        self.count(r)
        pts = [{k: dec(v) for k, v in p.items()} for p in tlc.messages(r["out"], "PT")]
        pts.sort(key=lambda p: repr(sorted(p.items())))
        self.points += len(pts)
        return pts


def dec(v):
    if isinstance(v, list):
        return v[0] / v[1] if v[0] % v[1] else float(v[0] // v[1])
    return v


class Suite:
    def __init__(self, programs, design=None, assumptions=()):
        self.programs = programs
        self._design = design
        self.assumptions = list(assumptions)

    def design(self, ctx):
        return self._design(ctx) if self._design else []


class Prog:
    """A session program; every method returns the 1-based line of the event it adds."""

    def __init__(self, id):
        self.id, self.ops, self.h = id, [], 0

    def add(self, *op):
        self.ops.append(tuple(op))
        return len(self.ops)

    def new(self, cls, p):
        self.h += 1
        self.add("new", self.h, cls, p)
        return self.h

    def set(self, h, x, v):
        return self.add("set", h, x, v)

    def copy(self, h):
        self.h += 1
        self.add("copy", h, self.h)
        return self.h

    def call(self, h, m, **q):
        return self.add("call", h, m, q)

    def rel(self, t, i, **f):
        f["i"] = list(i)
        return self.add("rel", t, f)

    def fn(self, name, **q):
        return self.add("fn", name, q)

    def poke(self, h, x, v):
        return self.add("poke", h, x, v)

    def again(self, h, x, v):
        return self.add("again", h, x, v)

    def kept(self):
        return self.add("kept")

    def done(self):
        return {"id": self.id, "ops": self.ops}


def match_known(known, session, bad, event):
    for k in known:
        m = k["match"]
        if m.get("clause") not in (None, bad["c"]):
            continue
        if all(x in session["id"] for x in m.get("session", [])) and all(event.get(a) == b for a, b in m.get("event", {}).items()):
            return k
    return None


SUITES = {}


def suite(prop, design=None, assumptions=()):
    def deco(f):
        SUITES[prop] = Suite(f, design, assumptions)
        return f
    return deco


def register():
    """Everything programs may need in the recording processes."""
    import functions  # noqa: F401


import suites_price  # noqa: E402,F401
import suites_state  # noqa: E402,F401
import suites_greeks  # noqa: E402,F401
import suites_sim  # noqa: E402,F401

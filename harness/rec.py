"""Runs abstract session programs against the real finoptions and records them as trace events.

A program is {"id": str, "ops": [op, ...]}; every op yields exactly one event, so Ref(i) and
relation indices count ops from 1.  Ops:
  ("new", h, cls, {param: value})      ("set", h, name, value)      ("copy", h, g)
  ("call", h, method, {kwargs})        ("rel", type, {fields})      ("fn", name, {args})
  ("poke", h, name, value)             the caller overwrites an array he built object h with
  ("again", h, name, value)            the caller overwrites such an array, and passes it to set_param again
  ("kept",)                            are the caller's arrays still what he passed in?
"""
import copy as _copy
import multiprocessing
import signal
import warnings

warnings.simplefilter("ignore")
import numpy as np

import wording
from fix import fix

np.seterr(all="ignore")
TIMEOUT = 25
HANGS = multiprocessing.Value("i", 0)       # shared by the recording processes


class Ref:
    """The raw result of an earlier op, optionally through a function."""

    def __init__(self, i, f=None):
        self.i, self.f = i, f


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout()


def enc(x):
    """A Python value as a tagged value of the specification."""
    try:
        return _enc(x)
    except Exception as ex:             # whatever this is, it is no answer
        return {"k": "other", "s": type(ex).__name__}


def _enc(x):
    if x is None:
        return {"k": "none", "x": 0}
    if isinstance(x, (bool, np.bool_)):
        return {"k": "bool", "b": bool(x)}
    if isinstance(x, (int, np.integer)):
        if abs(int(x)) < 2 ** 31:
            return {"k": "int", "n": int(x)}
        return {"k": "num", "v": fix(int(x))}
    if isinstance(x, (float, np.floating)):
        if x != x:
            return {"k": "nan", "x": 0}
        if x in (float("inf"), float("-inf")):
            return {"k": "inf", "n": 1 if x > 0 else -1}
        return {"k": "num", "v": fix(float(x))}
    if isinstance(x, np.ndarray):
        if x.size == 1:
            return enc(x.reshape(-1)[0])
        if x.ndim == 1:
            return {"k": "arr", "a": [enc(v) for v in x]}
        if x.ndim == 2:
            return {"k": "mat", "m": [{"k": "arr", "a": [enc(v) for v in row]} for row in x]}
        return {"k": "other", "s": "ndarray%d" % x.ndim}
    if isinstance(x, str):
        return {"k": "str", "s": x}
    if hasattr(x, "converged") and hasattr(x, "root"):
        return {"k": "root", "v": enc(x.root), "conv": bool(x.converged)}
    if hasattr(x, "success") and hasattr(x, "x"):
        return {"k": "root", "v": enc(x.x), "conv": bool(x.success)}
    if isinstance(x, dict):
        return {"k": "dict", "d": {str(k): enc(v) for k, v in x.items()}, "o": [str(k) for k in x]}
    if isinstance(x, (list, tuple)):
        return {"k": "seq", "q": [enc(v) for v in x]}
    return {"k": "other", "s": type(x).__name__}


def param(x):
    """Parameters: a one-element array stays an array; a list of strings etc. is kept apart."""
    if isinstance(x, np.ndarray) and x.ndim == 1 and x.size == 1:
        return {"k": "arr", "a": [enc(x[0])]}
    return enc(x)


_cls = {}


def classes():
    if not _cls:
        import finoptions as fo
        from finoptions import basic_american_options as a, binomial_tree_options as b
        from finoptions import heston_nandi_options as h, spread_options as s, monte_carlo_options as m
        for mod in (fo, a, b, h, s, m):
            for name in dir(mod):
                if isinstance(getattr(mod, name), type) and name[0] != "_":
                    _cls.setdefault(name, getattr(mod, name))
    return _cls


FUNCTIONS = {}


def guarded(f):
    """(raw result, event result)"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, TIMEOUT)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            raw = f()
        signal.setitimer(signal.ITIMER_REAL, 0)
        return raw, None
    except Timeout:
        with HANGS.get_lock():
            HANGS.value += 1
        return None, {"k": "exc", "t": "Timeout", "s": "no answer in %d s" % TIMEOUT}
    except (Exception, SystemExit) as ex:
        return None, {"k": "exc", "t": type(ex).__name__, "s": str(ex)[:200]}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def scribbled(raw):
    """A caller who overwrites what an answer gave him; the session goes on with a copy of the answer."""
    kept = _copy.deepcopy(raw)
    if isinstance(raw, np.ndarray) and raw.flags.writeable:
        raw[...] = -7
    elif isinstance(raw, dict):
        raw.clear()
        raw["S"] = raw["foo"] = -7
    return kept


def spelled(p):
    """Equal strings need not be one object."""
    return {k: "".join(list(v)) if isinstance(v, str) else v for k, v in p.items()}


NOOBJ = {"k": "exc", "t": "NoObject", "s": ""}


def run(prog):
    heap, raws, ev, mine = {}, [], [], []
    wording.start(str(prog["id"]), prog.get("wordy", False))
    kind_of = {}

    def own(h, p):
        mine.extend((h, x, v, enc(v)) for x, v in p.items() if isinstance(v, np.ndarray) and v.size > 1)

    def val(v):
        if isinstance(v, Ref):
            r = raws[v.i - 1]
            try:
                return v.f(r) if v.f else r
            except Exception:           # the result was not what it should be; the judge sees that
                return None
        return v

    for op in prog["ops"]:
        if HANGS.value >= 8:             # the code hangs; what is recorded so far shows it
            break
        kind = op[0]
        raw, exc = None, None
        if kind == "new":
            _, h, c, p = op
            p = {k: val(v) for k, v in p.items()}
            p = spelled({k: np.array(v) if isinstance(v, np.ndarray) else v for k, v in p.items()})
            own(h, p)
            raw, exc = guarded(lambda: wording.put(classes()[c], c, **p))
            kind_of[h] = c
            if exc is None:
                heap[h] = raw
            e = {"a": "new", "h": h, "c": c, "p": {k: param(v) for k, v in p.items()}, "r": exc or {"k": "ok"}}
        elif kind == "set":
            _, h, x, v = op
            v = val(v)
            v = spelled({x: np.array(v) if isinstance(v, np.ndarray) else v})[x]
            own(h, {x: v})
            _, exc = guarded(lambda: wording.put(heap[h].set_param, "set_param", x=x, value=v)) if h in heap else (None, NOOBJ)
            e = {"a": "set", "h": h, "x": x, "v": param(v), "r": exc or {"k": "ok"}}
        elif kind == "copy":
            _, h, g = op
            raw, exc = guarded(lambda: heap[h].copy()) if h in heap else (None, NOOBJ)
            if exc is None:
                heap[g] = raw
            kind_of[g] = kind_of.get(h)
            e = {"a": "copy", "h": h, "g": g, "r": exc or {"k": "ok"}}
        elif kind == "call":
            _, h, m, q = op
            q = {k: val(v) for k, v in q.items()}
            if h not in heap:
                exc = NOOBJ
            elif m in ("__str__", "__repr__"):
                raw, exc = guarded(lambda: getattr(heap[h], m)())
            else:
                what = "volatility of RGW" if m == "volatility" and kind_of.get(h) == "RollGeskeWhaleyOption" else m
                raw, exc = guarded(lambda: wording.put(getattr(heap[h], m), what, **q))
            if exc is None and m == "get_params" and isinstance(raw, dict):
                r = {"k": "dict", "d": {k: param(v) for k, v in raw.items()}, "o": list(raw)}
            else:
                r = exc or enc(raw)
            e = {"a": "call", "h": h, "m": m, "q": {k: enc(v) for k, v in q.items()}, "r": r}
        elif kind == "fn":
            _, name, args = op
            args = {k: val(v) for k, v in args.items()}
            raw, exc = guarded(lambda: FUNCTIONS[name](heap, **args))
            e = {"a": "fn", "f": name, "q": {k: enc(v) for k, v in args.items()}}
            if "h" in args:
                e["h"] = args["h"]
            if exc is None and isinstance(raw, tuple) and len(raw) == 2 and isinstance(raw[1], dict):
                raw, extra = raw
                e.update(extra)
            e["r"] = exc or (dict(raw) if type(raw).__name__ == "Tagged" else enc(raw))
        elif kind == "poke":
            _, h, x, v = op
            for m in [m for m in mine if m[0] == h and m[1] == x]:
                m[2][0] = v
            mine[:] = [m for m in mine if m[0] != h or m[1] != x]
            e = {"a": "poke", "h": h}
        elif kind == "again":
            _, h, x, v = op
            a = [m for m in mine if m[0] == h and m[1] == x][-1][2]
            mine[:] = [m for m in mine if m[2] is not a]
            a[0] = v
            own(h, {x: a})
            _, exc = guarded(lambda: wording.put(heap[h].set_param, "set_param", x=x, value=a)) if h in heap else (None, NOOBJ)
            e = {"a": "set", "h": h, "x": x, "v": param(a), "r": exc or {"k": "ok"}}
        elif kind == "kept":
            e = {"a": "kept", "arrays": [{"was": w, "is": enc(v)} for _, _, v, w in mine]}
        elif kind == "rel":
            _, t, f = op
            e = {"a": "rel", "t": t}
            e.update(f)
        if prog.get("scribble") and kind == "call" and exc is None:
            raw = scribbled(raw)
        put = wording.TELLER.taken()
        if put:
            e["put"] = put
        raws.append(raw)
        ev.append(e)
    return {"id": prog["id"], "ev": ev}

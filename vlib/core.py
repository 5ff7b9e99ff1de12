"""Components of checks, comparison helpers and case (de)serialisation."""
import base64, json
import numpy as np


class Violation(AssertionError):
    """The property does not hold on this case."""


class Component:
    """One generated search.

    strategy: callable () -> Hypothesis strategy of a plain case (dict/list/scalars/ndarrays)
    run:      callable(case) -> (nontrivial: bool, labels: iterable of str); raises Violation
    quick, thorough: numbers of cases;  shards: worker processes it is spread over
    crashy:   the code under test is native: remember the running case in case it dies
    """
    def __init__(self, name, strategy, run, quick, thorough=None, shards=4, crashy=False, timeout=120,
                 setup=None, env=None, rule=""):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough = quick, thorough or quick * 20
        self.shards, self.crashy, self.timeout = shards, crashy, timeout
        self.setup, self.env, self.rule = setup, env, rule


# ------------------------------------------------------------------ encoding
def enc(o):
    if isinstance(o, np.ndarray):
        if o.dtype.kind in "OSU":
            return {"__ndo__": [enc(x) for x in o.ravel().tolist()], "s": list(o.shape)}
        return {"__nd__": o.dtype.str, "s": list(o.shape),
                **({"v": o.ravel().tolist()} if o.size <= 300 and o.dtype.kind in "iub"
                   else {"b": base64.b64encode(np.ascontiguousarray(o).tobytes()).decode()})}
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, dict):
        return {"__d__": [[enc(k), enc(v)] for k, v in o.items()]}
    if isinstance(o, tuple):
        return {"__t__": [enc(x) for x in o]}
    if isinstance(o, list):
        return [enc(x) for x in o]
    if isinstance(o, bytes):
        return {"__b__": base64.b64encode(o).decode()}
    return o


def dec(o):
    if isinstance(o, list):
        return [dec(x) for x in o]
    if isinstance(o, dict):
        if "__nd__" in o:
            dt = np.dtype(o["__nd__"])
            a = np.array(o["v"], dtype=dt) if "v" in o else np.frombuffer(base64.b64decode(o["b"]), dtype=dt).copy()
            return a.reshape(o["s"])
        if "__ndo__" in o:
            return np.array(dec(o["__ndo__"]), dtype=object).reshape(o["s"])
        if "__d__" in o:
            return {dec(k): dec(v) for k, v in o["__d__"]}
        if "__t__" in o:
            return tuple(dec(x) for x in o["__t__"])
        if "__b__" in o:
            return base64.b64decode(o["__b__"])
    return o


def brief(o, n=1500):
    def f(x):
        if isinstance(x, np.ndarray):
            if x.size <= 24:
                return x.tolist()
            return f"ndarray{list(x.shape)} {x.dtype} first={x.ravel()[:8].tolist()}"
        if isinstance(x, dict):
            return {str(k): f(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [f(v) for v in list(x)[:20]]
        if isinstance(x, np.generic):
            return x.item()
        return x if isinstance(x, (int, float, str, bool, type(None))) else repr(x)[:200]
    s = json.dumps(f(o), default=str)
    return json.loads(s) if len(s) <= n else s[:n]


# ------------------------------------------------------------------ comparison
def fail(msg):
    raise Violation(msg)


def check(cond, msg):
    if not cond:
        raise Violation(msg if isinstance(msg, str) else msg())


def same_shape(got, want, what):
    if got is None or not hasattr(got, "shape"):
        raise Violation(f"{what}: no array returned ({type(got).__name__})")
    if tuple(got.shape) != tuple(np.shape(want)):
        raise Violation(f"{what}: shape {tuple(got.shape)}, expected {tuple(np.shape(want))}")


def _report(bad, got, want, what):
    i = tuple(int(x) for x in np.argwhere(bad)[0])
    g, w = np.asarray(got)[i], np.asarray(want)[i]
    raise Violation(f"{what}: at {i} got {g!r}, expected {w!r} ({int(bad.sum())} of {bad.size} differ)")


def equal(got, want, what, mask=None):
    """Exact equality (NaN equals NaN); mask: True where it is compared."""
    want = np.asarray(want)
    got = np.asarray(got) if not hasattr(got, "shape") else got
    same_shape(got, want, what)
    got = np.asarray(got)
    bad = ~(got == want)
    if want.dtype.kind in "fc" and got.dtype.kind in "fc":
        bad &= ~(np.isnan(got) & np.isnan(want))
    if mask is not None:
        bad &= mask
    if bad.any():
        _report(bad, got, want, what)


def close(got, want, what, rtol=1e-5, atol=0.0, mask=None):
    want = np.asarray(want, dtype=float)
    got = np.asarray(got) if not hasattr(got, "shape") else got
    same_shape(got, want, what)
    got = np.asarray(got, dtype=float)
    with np.errstate(all="ignore"):
        ok = (np.abs(got - want) <= np.asarray(atol) + np.asarray(rtol) * np.abs(want)) | (got == want) | (np.isnan(got) & np.isnan(want))
    bad = ~ok
    if mask is not None:
        bad &= mask
    if bad.any():
        _report(bad, got, want, what)

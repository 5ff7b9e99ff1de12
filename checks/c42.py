import numpy as np
from hypothesis import strategies as st
from vlib import cas22, darkref, jumpref, likely, linref, ramps, satref
from vlib.core import Component, check, close, equal

RULE = ("random cubes of every per-pixel step and random rearrangements of their pixels (permutations into other shapes, crops, single pixels, repetitions); the rearranged "
        "input has to give the rearranged output; non-trivial when there are at least two pixels and some of them come out changed; distinct by content")


@st.composite
def moved(draw, base, **kw):
    case = draw(base(**kw))
    nr, nc = size(case)
    n = nr * nc
    kind = draw(st.sampled_from(["permute", "crop", "one", "repeat", "permute"]))
    if kind == "permute":
        index = draw(st.permutations(list(range(n))))
    elif kind == "crop":
        y0, x0 = draw(st.integers(0, nr - 1)), draw(st.integers(0, nc - 1))
        y1, x1 = draw(st.integers(y0 + 1, nr)), draw(st.integers(x0 + 1, nc))
        return {"case": case, "index": np.arange(n).reshape(nr, nc)[y0:y1, x0:x1].copy(), "kind": kind}
    elif kind == "one":
        index = [draw(st.integers(0, n - 1))]
    else:
        index = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=30))
    m = len(index)
    rows = draw(st.sampled_from([d for d in range(1, m + 1) if m % d == 0]))
    return {"case": case, "index": np.array(index, int).reshape(rows, m // rows), "kind": kind}


def size(case):
    a = case.get("data", case.get("sci"))
    return (1, case["res"].shape[1]) if a is None else a.shape[-2:]


def take(a, index, shape):
    """Rearrange the last two axes of an array of pixels; other things stay as they are."""
    if not isinstance(a, np.ndarray) or a.ndim < 2 or a.shape[-2:] != shape:
        return a
    return a.reshape(a.shape[:-2] + (-1,))[..., index].copy()


def both(c, step, keys, names, rtol=0.0, atol=0.0):
    case, index = c["case"], c["index"]
    shape = size(case)
    other = {k: (take(v, index, shape) if k in keys else v) for k, v in case.items()}
    a, b = step(case), step(other)
    check(len(a) == len(b), "other number of products")
    for x, y, name in zip(a, b, names):
        check((x is None) == (y is None), f"{name}: {'missing' if y is None else 'there'} after rearranging")
        if x is None:
            continue
        want = take(np.asarray(x), index, shape)
        if want.dtype.kind == "f":
            close(np.asarray(y), want, f"{name} of rearranged pixels ({c['kind']})", rtol=rtol, atol=atol)
        else:
            equal(np.asarray(y), want, f"{name} of rearranged pixels ({c['kind']})")
    return a, [c["kind"], f"{min(9, index.size)} pixels"]


KEYS = ["slope", "dq", "var_poisson", "var_rnoise", "err"]
RATE = ["rate", "dq", "var_poisson", "var_rnoise", "err"]
INTS = [k + " per integration" for k in RATE]


def products(out):
    return [None if part is None else np.asarray(part[k]) for part in out[:2] for k in KEYS]


def run_ols(c):
    f = lambda case: products(ramps.call_ramp_fit(case))
    # a cube whose every pixel is unusable has no products at all, so the parts may lack what the whole has
    case, index = c["case"], c["index"]
    shape = size(case)
    keys = ("data", "gdq", "pdq", "gain", "rn", "dark", "zf")
    other = {k: (take(v, index, shape) if k in keys else v) for k, v in case.items()}
    if f(other)[0] is None:
        return False, ["all saturated"]
    a, lab = both(c, f, keys, RATE + INTS, 1e-6)
    return bool(shape[0] * shape[1] > 1 and a[0] is not None and np.isfinite(a[0]).sum() > 1), lab


def run_likely(c):
    def f(case):
        out, rd = likely.call(case)
        p = products(out)
        return p + [np.asarray(rd.groupdq) if p[0] is not None else None]
    case, index = c["case"], c["index"]
    shape = size(case)
    keys = ("data", "gdq", "pdq", "gain", "rn", "dark", "zf")
    other = {k: (take(v, index, shape) if k in keys else v) for k, v in case.items()}
    if f(other)[0] is None:
        return False, ["all saturated"]
    a, lab = both(c, f, keys, RATE + INTS + ["group flags"], 1e-5)
    return bool(shape[0] * shape[1] > 1 and np.isfinite(a[0]).sum() > 1), lab


def run_cas(c):
    case, index = c["case"], c["index"].ravel()
    other = dict(case, res=case["res"][:, index].copy(), dq=case["dq"][:, index].copy(), rn=case["rn"][index].copy(), layout="2d")
    a, b = cas22.call(dict(case, layout="2d")), cas22.call(other)
    for x, y, name in zip(a[:2], b[:2], ("parameters", "variances")):
        close(y, x[index], f"{name} of rearranged pixels ({c['kind']})", rtol=1e-6, atol=0.0)
    equal(b[2], a[2][:, index], f"flags of rearranged pixels ({c['kind']})")
    return case["res"].shape[1] > 1 and bool((a[0] != 0).any()), [c["kind"]]


def run_jump(c):
    case = dict(c["case"])
    if case["mode"] == "sigclip" and c["kind"] != "permute":
        return False, ["sigma clipping takes back groups flagged everywhere"]
    case["four"] = False
    # groups whose whole image is unusable are not counted, so such groups have to stay such groups
    shape = size(case)
    unusable = lambda g: (g & 1 != 0).all(axis=(-1, -2))
    if not np.array_equal(unusable(case["gdq"]), unusable(take(case["gdq"], c["index"], shape))):
        return False, ["other unusable groups"]

    def f(k):
        gdq, pdq, _, _, _ = jumpref.call(k)
        return gdq, pdq
    a, lab = both(dict(c, case=case), f, ("data", "gdq", "pdq", "gain", "rn"), ["group flags", "pixel flags"])
    return bool(case["data"][0, 0].size > 1 and (a[0] != case["gdq"]).any()), lab + [case["mode"]]


def run_lin(c):
    case = dict(c["case"])
    if case["extra"] == "column":
        case["extra"] = None
    a, lab = both(dict(c, case=case), linref.call, ("data", "gdq", "pdq", "lin", "ldq", "z", "ilin", "satval"), ["data", "pixel flags", "zero frame"], 1e-6)
    return bool(case["data"][0, 0].size > 1 and (a[0] != case["data"]).any()), lab + ["read" if case["ilin"] is not None else "group"]


def run_dark(c):
    case = c["case"]

    def f(k):
        out, avg, _ = darkref.call(k)
        return np.asarray(out.data), np.asarray(out.groupdq), np.asarray(out.pixeldq)
    # sums over frames are rounded in an order that depends on the shape of the array
    big = 1 + np.nanmax(np.abs(case["sci"]), initial=0) + np.nanmax(np.abs(case["dark"]), initial=0)
    a, lab = both(c, f, ("sci", "gdq", "pdq", "dark", "ddq"), ["data", "group flags", "pixel flags"], 1e-6, 2e-6 * float(big))
    return bool(case["sci"][0, 0].size > 1 and not np.array_equal(a[0], case["sci"], equal_nan=True)), lab + [case["kind"]]


def run_sat(c):
    case = dict(c["case"], grow=0)
    a, lab = both(dict(c, case=case), lambda k: satref.call(k)[:-1], ("data", "gdq", "pdq", "thr", "sdq", "bias", "z"), ["group flags", "pixel flags", "zero frame"])
    return bool(case["data"][0, 0].size > 1 and (a[0] != case["gdq"]).any()), lab + ["averaged" if case["pattern"] else "plain"]


COMPONENTS = [
    Component("ols", lambda: moved(ramps.ramp_cases, miri=False, max_samples=700), run_ols, quick=1500, thorough=20000, shards=4),
    Component("likely", lambda: moved(likely.likely_cases), run_likely, quick=300, thorough=4000, shards=4),
    Component("cas22", lambda: moved(cas22.cas_cases, jumps=True), run_cas, quick=1500, thorough=20000, shards=4),
    Component("jump", lambda: moved(jumpref.jump_cases, spread=False), run_jump, quick=1500, thorough=20000, shards=4),
    Component("linearity", lambda: moved(linref.lin_cases), run_lin, quick=900, thorough=10000, shards=2),
    Component("linearity-reads", lambda: moved(linref.lin_cases, read=True), run_lin, quick=900, thorough=10000, shards=2),
    Component("dark", lambda: moved(darkref.dark_cases), run_dark, quick=900, thorough=10000, shards=2),
    Component("saturation", lambda: moved(satref.sat_cases), run_sat, quick=1500, thorough=20000, shards=4),
]

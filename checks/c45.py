import numpy as np
from hypothesis import strategies as st
from vlib import cas22, darkref, jumpref, likely, linref, ramps, resref, satref, wcsgen
from vlib.core import Component, check, close, equal
from vlib.gen import table
from .c16 import cases as shower_cases
from .c23 import stacks
from .c24 import images
from .c25 import cubes

RULE = ("random inputs of every array step, stored as big-endian, Fortran-ordered, strided or mirrored arrays (any mixture); the outputs have to be those of plain arrays; "
        "non-trivial when some array is not plain and there are outputs; distinct by content")


def lay(a, how):
    """The same values, stored in another way."""
    if "big" in how and a.dtype.itemsize > 1:
        a = a.astype(a.dtype.newbyteorder(">"))
    if "fortran" in how:
        return np.asfortranarray(a.copy())
    if "strided" in how:
        b = np.zeros(tuple(2 * n + 1 for n in a.shape), dtype=a.dtype)
        v = b[tuple(slice(1, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if "mirror" in how:
        return a[(slice(None, None, -1),) * a.ndim].copy()[(slice(None, None, -1),) * a.ndim]
    return a.copy()


HOW = ["plain", "big", "big", "fortran", "strided", "mirror", "big strided", "big fortran"]


@st.composite
def stored(draw, base, keys, **kw):
    case = draw(base(**kw))
    first = draw(st.sampled_from(HOW))
    return {"case": case, "how": {k: first if draw(st.booleans()) else draw(st.sampled_from(HOW)) for k in keys}}


def both(c, step, names, rtol=0.0, atol=0.0):
    case = c["case"]
    a = step(case)
    laid = {k: lay(case[k], h) for k, h in c["how"].items() if isinstance(case.get(k), np.ndarray)}
    b = step(dict(case, shared=tuple(laid), **laid))
    check(len(a) == len(b), "other number of products")
    some = False
    for x, y, n in zip(b, a, names):
        check((x is None) == (y is None), lambda: f"{n} is {'missing' if x is None else 'there'} for arrays stored as {c['how']}")
        if y is None:
            continue
        x, y = np.asarray(x), np.asarray(y)
        some = some or y.size > 0
        if y.dtype.kind == "f":
            close(x, y, f"{n} of arrays stored as {c['how']}", rtol=rtol, atol=atol)
        else:
            equal(x, y, f"{n} of arrays stored as {c['how']}")
    odd = sorted({h for k, h in c["how"].items() if k in laid and h != "plain"})
    return bool(odd and some), odd


KEYS = ["slope", "dq", "var_poisson", "var_rnoise", "err"]
RATE = ["rate", "dq", "var_poisson", "var_rnoise", "err"] + [k + " per integration" for k in ["rate", "dq", "var_poisson", "var_rnoise", "err"]]


def products(out):
    return [None if part is None else np.asarray(part[k]) for part in out[:2] for k in KEYS]


def run_ols(c):
    return both(c, lambda k: products(ramps.call_ramp_fit(k)), RATE, 1e-6)


def run_likely(c):
    def f(k):
        out, rd = likely.call(k)
        p = products(out)
        return p + [np.asarray(rd.groupdq) if p[0] is not None else None]
    return both(c, f, RATE + ["group flags"], 1e-6)


def run_cas(c):
    c = dict(c, case=dict(c["case"], layout="2d"))
    return both(c, cas22.call, ["parameters", "variances", "flags"])


def run_jump(c):
    return both(c, lambda k: jumpref.call(k)[:3], ["group flags", "pixel flags", "number of jumps"])


def run_showers(c):
    def f(k):
        def tweak(jd):
            jd.set_shower_info(True, k["snr"], k["min_area"], k["inner"], k["outer"], k["ratio"], k["single"], k["max_width"])
            jd.grps_masked_after_shower = k["after_groups"]
            jd.max_shower_amplitude = k["amp"]
        return jumpref.call(k, tweak=tweak)[:3]
    return both(c, f, ["group flags", "pixel flags", "number of jumps"])


def run_lin(c):
    return both(c, linref.call, ["data", "pixel flags", "zero frame"], 1e-6)


def run_dark(c):
    def f(k):
        out, avg, _ = darkref.call(k)
        return np.asarray(out.data), np.asarray(out.groupdq), np.asarray(out.pixeldq), None if avg is None else np.asarray(avg.data)
    case = c["case"]
    big = 1 + np.nanmax(np.abs(case["sci"]), initial=0) + np.nanmax(np.abs(case["dark"]), initial=0)
    return both(c, f, ["data", "group flags", "pixel flags", "averaged dark"], 1e-6, 2e-6 * float(big))


def run_sat(c):
    return both(c, lambda k: satref.call(k)[:-1], ["group flags", "pixel flags", "zero frame"])


def run_outlier(c):
    from stcal.outlier_detection.utils import flag_crs, flag_resampled_crs

    def f(k):
        return (flag_crs(k["sci"], k["err"], k["blot"], k["snr"]),
                flag_resampled_crs(k["sci"], k["err"], k["blot"], k["snr"], k["snr2"], k["s1"], k["s2"], k["backg"]))
    return both(c, f, ["outliers", "outliers with resampled reference"])


def run_median(c):
    from stcal.outlier_detection.median import MedianComputer, nanmedian3D

    def f(k):
        d = k["d"]
        a = MedianComputer(d.shape, True, dtype=d.dtype)
        b = MedianComputer(d.shape, False, buffer_size=k["buffer"], dtype=d.dtype)
        for i in range(len(d)):
            a.append(d[i], i)
            b.append(d[i])
        return nanmedian3D(d, overwrite_input=False), a.evaluate(), b.evaluate()
    return both(c, f, ["median", "median in memory", "median on disk"], 1e-6)


def run_medfilt(c):
    from stcal.outlier_detection.utils import medfilt
    return both(c, lambda k: (medfilt(k["a"], k["k"]),), ["filtered array"], 1e-6)


@st.composite
def blots(draw):
    shape, ref = ((draw(st.integers(2, 10)), draw(st.integers(2, 10))) for _ in range(2))
    p = draw(wcsgen.frames(shape))
    q = wcsgen.pair(draw, p, ref, dither=4.0)
    return {"p": p, "q": q, "d": table(draw, ref, [1.0, 5.0, np.nan, -3.0, 100.0]).astype(draw(st.sampled_from([np.float32, np.float64])))}


def run_blot(c):
    from stcal.outlier_detection.utils import gwcs_blot
    p, q = c["case"]["p"], c["case"]["q"]
    return both(c, lambda k: (gwcs_blot(k["d"], wcsgen.build(q), tuple(p["shape"]), wcsgen.build(p), fillval=-1.0),), ["blotted image"], 1e-6)


ARRAYS = ("data", "dq", "err", "var_rnoise", "var_flat", "var_poisson", "var_sky")


def run_resample(c):
    case = c["case"]

    def f(how):
        models = [resref.model(case, e, i) for i, e in enumerate(case["ex"])]
        for m in models:
            for k, h in how.items():
                if isinstance(m.get(k), np.ndarray):
                    m[k] = lay(m[k], h)
        r = resref.make(case, enable_var=case["evar"], compute_err=case["err"])
        for m in models:
            r.add_model(m)
        r.finalize()
        return r.output_model
    a, b = f({}), f(c["how"])
    for k in a:
        x, y = b[k], a[k]
        if isinstance(y, np.ndarray):
            check(isinstance(x, np.ndarray), f"{k} is missing")
            if y.dtype.kind == "f":
                close(x, y, f"{k} of arrays stored as {c['how']}", rtol=1e-6, atol=0.0)
            else:
                equal(x, y, f"{k} of arrays stored as {c['how']}")
    odd = sorted({h for h in c["how"].values() if h != "plain"})
    return bool(odd), odd


def comp(name, base, keys, run, quick, thorough, shards, **kw):
    return Component(name, lambda: stored(base, keys, **kw), run, quick=quick, thorough=thorough, shards=shards)


CUBE = ("data", "gdq", "pdq", "gain", "rn")
COMPONENTS = [
    comp("ols", ramps.ramp_cases, (*CUBE, "dark", "zf"), run_ols, 700, 12000, 2, max_samples=400),
    comp("likely", likely.likely_cases, (*CUBE, "dark", "zf"), run_likely, 160, 3000, 4, npix=6),
    comp("cas22", cas22.cas_cases, ("res", "dq", "rn"), run_cas, 500, 10000, 2, jumps=True),
    comp("jump", jumpref.jump_cases, CUBE, run_jump, 500, 10000, 4),
    comp("showers", shower_cases, CUBE, run_showers, 60, 1200, 6),
    comp("linearity", linref.lin_cases, ("data", "gdq", "pdq", "lin", "ldq", "z"), run_lin, 400, 8000, 2),
    comp("linearity-reads", linref.lin_cases, ("data", "gdq", "pdq", "lin", "ldq", "z", "ilin", "satval"), run_lin, 400, 8000, 2, read=True),
    comp("dark", darkref.dark_cases, ("sci", "gdq", "pdq", "dark", "ddq"), run_dark, 500, 8000, 2),
    comp("saturation", satref.sat_cases, ("data", "gdq", "pdq", "thr", "sdq", "bias", "z"), run_sat, 500, 8000, 2),
    comp("outliers", images, ("sci", "err", "blot"), run_outlier, 500, 8000, 2),
    comp("median", stacks, ("d",), run_median, 400, 8000, 2),
    comp("medfilt", cubes, ("a",), run_medfilt, 300, 6000, 1),
    comp("blot", blots, ("d",), run_blot, 200, 4000, 2),
    comp("resample", resref.cases, ARRAYS, run_resample, 160, 4000, 4, var=True),
]

import numpy as np
from hypothesis import strategies as st
from vlib import asan, olsref
from vlib.core import Component, check
from vlib.gen import flagcube
from vlib.olscheck import compare
from vlib.ramps import call_ramp_fit, make_model, ramp_cases

RULE = ("the C source of the ramp fitter is rebuilt with the address and undefined-behaviour sanitizers (fresh memory filled with a "
        "pattern) and run on ramp cubes with NaN, infinite and huge samples, degenerate shapes, byte orders and memory layouts; "
        "non-trivial when a pixel holds non-finite data or flags; pixels without non-finite samples are compared with the reference")
ASSUMPTIONS = ["only slope_fitter.c is instrumented; out-of-bounds accesses that stay inside one allocation are seen only through wrong results"]


@st.composite
def cases(draw, **kw):
    shape_kind = draw(st.sampled_from(["any", "any", "one group", "one pixel", "long"]))
    k = dict(kw)
    if shape_kind == "one group":
        k.update(max_groups=1)
    elif shape_kind == "one pixel":
        k.update(max_samples=1)
    elif shape_kind == "long":
        k.update(min_groups=20, max_groups=70, max_ints=2, max_samples=600)
    c = draw(ramp_cases(chargeloss=draw(st.booleans()), early=draw(st.booleans()), **k))
    shp = c["data"].shape
    c["bad"] = flagcube(draw, shp, [1, 1, 2, 3, 4, 5], draw(st.sampled_from([0, 3, 20, 120]))).astype(np.uint8)
    c["badmaps"] = flagcube(draw, (3,) + shp[2:], [1, 2, 3, 4], draw(st.sampled_from([0, 0, 40]))).astype(np.uint8)
    c["order"] = draw(st.sampled_from(["native", "native", "big"]))
    c["layout"] = draw(st.sampled_from(["C", "C", "F", "strided"]))
    c["opt"] = draw(st.booleans())
    return c


VALS = np.array([0, np.nan, np.inf, -np.inf, 3e38, -1e30], dtype=np.float32)


def lay(a, how, order):
    if a is None:
        return None
    if order == "big" and a.dtype.itemsize > 1:
        a = a.astype(a.dtype.newbyteorder(">"))
    if how == "F":
        return np.asfortranarray(a)
    if how == "strided":
        b = np.zeros(tuple(2 * n for n in a.shape), dtype=a.dtype)
        v = b[tuple(slice(0, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    return a.copy()


class _Lay(dict):
    pass


def run(case):
    from stcal.ramp_fitting.ramp_fit import ramp_fit
    c = dict(case)
    finite = case["bad"] == 0
    c["data"] = np.where(finite, case["data"], VALS[case["bad"]]).astype(np.float32)
    maps = {}
    for k, n in enumerate(("gain", "rn", "dark")):
        b = case["badmaps"][k]
        maps[n] = np.where(b == 0, case[n], VALS[b]).astype(np.float32)
    c.update(maps)
    m = make_model(c)
    for n in ("data", "groupdq", "pixeldq", "average_dark_current", "zeroframe"):
        if getattr(m, n, None) is not None:
            setattr(m, n, lay(getattr(m, n), case["layout"], case["order"]))
    from vlib.ramps import DQ
    got = ramp_fit(m, case["opt"], lay(c["rn"], case["layout"], case["order"]), lay(c["gain"], case["layout"], case["order"]),
                   "OLS_C", "optimal", "none", dict(DQ), suppress_one_group=case["suppress"])
    # pixels with finite inputs get their ordinary result
    ok = finite.all(axis=(0, 1)) & (case["badmaps"] == 0).all(axis=0)
    if ok.any():
        ref = olsref.fit(case)
        if ref is None:
            check(got[0] is None, "a fit was returned although no group is usable anywhere")
        else:
            check(got[0] is not None, "no fit was returned although usable groups exist")
            sub = [dict(got[0]), dict(got[1]), None]
            r = dict(ref)
            # overwrite the pixels that are not compared
            for i, prod in ((0, "image"), (1, "integ")):
                for k in sub[i]:
                    if k in ref[prod]:
                        a = np.array(sub[i][k])
                        if a.dtype.kind == "f":
                            a = a.astype(float)
                        else:
                            a = a.astype(np.int64)
                        if a.shape == ref[prod][k].shape:
                            a[..., ~ok] = ref[prod][k][..., ~ok]
                        sub[i][k] = a
            compare(case, ("slope", "var_poisson", "var_rnoise", "err", "dq"), sub, r)
    nt = bool((~finite).any() or case["gdq"].any())
    return nt, [case["order"] + " endian", "layout " + case["layout"], "optional" if case["opt"] else "no optional",
                "non-finite" if (~finite).any() else "finite"]


COMPONENTS = [Component("sanitized", lambda: cases(), run, quick=1600, shards=8, crashy=True, setup=asan.setup, env=asan.env)]

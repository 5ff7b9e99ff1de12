import numpy as np
from hypothesis import strategies as st
from vlib.core import Component, check, close, equal, fail
from vlib.ramps import call_ramp_fit, inprocess_pool, make_model, ramp_cases

RULE = ("ramp cubes of 2-12 rows fitted in one piece and through the worker pool with a drawn core count; the pool is replaced by an "
        "in-process one that pickles arguments and results; non-trivial when at least two slices are used; distinct by content")


@st.composite
def cases(draw, algo):
    kw = dict(min_rows=2, max_samples=1000, min_pix=4)
    if algo == "OLS_C":
        c = draw(ramp_cases(chargeloss=draw(st.booleans()), early=draw(st.sampled_from([False, False, True])), **kw))
    else:
        c = draw(ramp_cases(min_groups=4, max_groups=12, max_ints=2, **kw))
    c["cores"] = draw(st.sampled_from(["2", "3", "all", "half", "5", "quarter", "7"]))
    c["avail"] = draw(st.integers(2, 12))
    c["opt"] = draw(st.booleans())
    c["algo"] = algo
    return c


def pad_equal(a, b, what):
    a, b = np.asarray(a), np.asarray(b)
    if a.ndim == 4 and b.ndim == 4 and a.shape[1] != b.shape[1]:
        # planes that hold no segment of any pixel carry only zeros
        n = min(a.shape[1], b.shape[1])
        for x in (a, b):
            if np.any(np.nan_to_num(x[:, n:], nan=1.0)):
                fail(f"{what}: {a.shape[1]} planes in one piece, {b.shape[1]} in slices")
        a, b = a[:, :n], b[:, :n]
    equal(b, a, what)


def run(case):
    one = call_ramp_fit(case, case["algo"], case["opt"], "none")
    with inprocess_pool(case["avail"]):
        m = make_model(case)
        many = call_ramp_fit(case, case["algo"], case["opt"], case["cores"], model=m)
    if one[0] is None:
        check(many[0] is None, "sliced fit returned a result where the whole fit has none")
        return False, ["nothing to fit"]
    check(many[0] is not None, "sliced fit returned nothing")
    for i, n in ((0, "exposure"), (1, "integration"), (2, "optional")):
        if one[i] is None or many[i] is None:
            check(one[i] is None and many[i] is None, f"{n} products differ in presence")
            continue
        check(set(one[i]) == set(many[i]), f"{n} products hold different arrays")
        for k in one[i]:
            if one[i][k] is None or np.isscalar(one[i][k]):
                continue
            pad_equal(one[i][k], many[i][k], f"{n} {k} in slices")
            check(np.asarray(one[i][k]).dtype == np.asarray(many[i][k]).dtype, f"{n} {k}: type differs in slices")
    rows = case["data"].shape[2]
    return True, [f"rows {min(rows, 6)}", "cores " + case["cores"], "optional" if case["opt"] else "no optional"]


def real_case():
    return st.sampled_from([0])


def run_real(_):
    """One exposure through real spawned worker processes (the stand-in pool is only trusted after this)."""
    g = np.arange(6)[None, :, None, None]
    data = np.broadcast_to(10.0 + 7.0 * g, (2, 6, 5, 3)).astype(np.float32).copy()
    data *= (1 + np.arange(15).reshape(5, 3) / 10.0)[None, None]
    gdq = np.zeros(data.shape, np.uint8)
    gdq[0, 3, 1, :] = 4
    gdq[1, 2:, 4, 1] = 2
    case = {"data": data.astype(np.float32), "gdq": gdq, "pdq": np.zeros((5, 3), np.uint32), "gain": np.full((5, 3), 2.0, np.float32),
            "rn": np.full((5, 3), 9.0, np.float32), "dark": np.zeros((5, 3), np.float32), "zf": None, "frame_time": 2.0,
            "group_time": 2.0, "nframes": 1, "groupgap": 0, "drop": None, "name": "NIRCam", "suppress": False,
            "chargeloss": False, "cores": "2", "opt": True, "algo": "OLS_C"}
    one = call_ramp_fit(case, "OLS_C", True, "none")
    many = call_ramp_fit(case, "OLS_C", True, "2")
    for i in range(3):
        for k in one[i]:
            pad_equal(one[i][k], many[i][k], f"real worker processes: product {i} {k}")
    return True, ["real processes"]


COMPONENTS = [Component("ols-slices", lambda: cases("OLS_C"), run, quick=1600, shards=7, crashy=True),
              Component("likely-slices", lambda: cases("LIKELY"), run, quick=40, shards=4),
              Component("real-pool", real_case, run_real, quick=1, thorough=1, shards=1)]

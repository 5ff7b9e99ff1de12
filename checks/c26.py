import numpy as np
from hypothesis import strategies as st
from vlib.core import Component, check, close, equal
from vlib.gen import flagcube, table

RULE = ("random flag images, accepted flags written in every documented way (integer, lists, strings with , + | and names, inverted with ~, None), variance "
        "maps with missing, zero, negative and non-finite values; non-trivial when some pixels are bad and some good; distinct by content")
NAMES = {"DO_NOT_USE": 1, "SATURATED": 2, "JUMP_DET": 4, "DROPOUT": 8, "OUTLIER": 16, "HOT": 2048}


@st.composite
def cases(draw):
    s = (draw(st.integers(1, 6)), draw(st.integers(1, 6)))
    dq = flagcube(draw, s, [1, 2, 4, 8, 3, 5, 2048, 6, 2052, 16], draw(st.sampled_from([60, 0, 150]))).astype(draw(st.sampled_from([np.int32, np.uint32, np.uint8, np.int64])))
    good = sorted(draw(st.sets(st.sampled_from([1, 2, 4, 8, 16, 2048]), max_size=4)))
    inv = {v: k for k, v in NAMES.items()}
    form = draw(st.sampled_from(["int", "comma", "plus", "bar", "list", "names", "none", "tilde", "tilde-names", "~0", "names-bar"]))
    spec, ok = 0, sum(good)
    ones = ~0
    if form == "int" or (not good and form not in ("none", "~0")):
        spec = sum(good)
    elif form in ("comma", "plus", "bar"):
        spec = {"comma": ", ", "plus": "+", "bar": "|"}[form].join(str(g) for g in good)
    elif form == "list":
        spec = list(good)
    elif form == "names":
        spec = ",".join(inv[g] for g in good)
    elif form == "names-bar":
        spec = "|".join(inv[g] for g in good)
    elif form == "none":
        spec, ok = None, ones
    elif form == "~0":
        spec, ok = "~0", ones
    elif form == "tilde":
        spec, ok = "~" + "+".join(str(g) for g in good), ones & ~sum(good)
    else:
        spec, ok = "~" + ",".join(inv[g] for g in good), ones & ~sum(good)
    def var():
        k = draw(st.sampled_from(["array", "array", "array", "none", "absent", "shape"]))
        if k == "array":
            return k, table(draw, s, [1.0, 2.0, 0.25, 0.0, np.nan, np.inf, -1.0, 100.0, 1e-3, 4.0, 1e-44]).astype(draw(st.sampled_from([np.float32, np.float32, np.float64])))
        return k, np.full(draw(st.sampled_from([(s[0] + 1, s[1]), (s[1], s[0], 1), (s[0] * s[1],), (0,)])), 4.0) if k == "shape" else None
    return {"dq": dq, "spec": spec, "ok": ok, "form": form, "wt": draw(st.sampled_from(["ivm", "exptime", "ivm-sky", None])), "rn": var(), "sky": var(),
            "exp": draw(st.sampled_from([10.0, 3.5, 1000.0])), "meas": draw(st.sampled_from([20.0, None, "absent", 0.25, 0.0]))}


def run(case):
    from stcal.resample.utils import build_driz_weight, build_mask
    dq = case["dq"].copy()
    m = {"data": np.zeros(dq.shape, np.float32), "dq": dq, "exposure_time": case["exp"]}
    if case["meas"] != "absent":
        m["measurement_time"] = case["meas"]
    for key, (kind, arr) in (("var_rnoise", case["rn"]), ("var_sky", case["sky"])):
        if kind != "absent":
            m[key] = None if arr is None else arr.copy()
    good = (case["dq"].astype(np.int64) & ~case["ok"]) == 0
    w = build_driz_weight(m, case["wt"], case["spec"], NAMES)
    check(w.dtype == np.float32, f"type {w.dtype}")
    kind, arr = case["sky" if case["wt"] == "ivm-sky" else "rn"]
    if case["wt"] is None:
        want = np.ones(dq.shape)
    elif case["wt"] == "exptime":
        want = np.full(dq.shape, case["exp"] if case["meas"] in (None, "absent") else case["meas"])
    elif kind == "array":
        a = arr.astype(np.float64)
        with np.errstate(all="ignore"):
            want = np.where((a > 0) & np.isfinite(a), 1 / a, 0.0)
            want = np.where(want > 3e38, 0.0, want)
    else:
        want = np.ones(dq.shape)
    want = np.where(good, want, 0.0)
    if kind == "array" and arr.dtype == np.float64 and case["wt"] not in (None, "exptime"):
        with np.errstate(all="ignore"):      # 1/1e-44 does not fit single precision: infinite or none, not judged
            want = np.where(good & (arr == 1e-44), np.asarray(w, float), want)
    close(w, want, "weights", rtol=1e-6)
    mask = build_mask(case["dq"].copy(), case["spec"], NAMES)
    equal(np.asarray(mask).astype(bool), good, "mask")
    check(np.array_equal(m["dq"], case["dq"]), "the flags were modified")
    for key, (k, arr) in (("var_rnoise", case["rn"]), ("var_sky", case["sky"])):
        if k == "array":
            check(np.array_equal(m[key], arr, equal_nan=True), "a variance map was modified")
    return bool(good.any() and not good.all()), [case["form"], str(case["wt"])] + ([kind] if case["wt"] in ("ivm", "ivm-sky") else [])


COMPONENTS = [Component("weights", cases, run, quick=3000, thorough=100000, shards=6)]

import numpy as np
from hypothesis import strategies as st
from vlib.core import Component, check, equal
from vlib.gen import flagcube, table

RULE = ("random images with values for which the arithmetic is exact, so that samples lie on, above and below the limits; against a per-pixel loop; "
        "non-trivial when some but not all pixels are flagged; distinct by content")


@st.composite
def images(draw):
    nr, nc = draw(st.integers(1, 9)), draw(st.integers(1, 9))
    s = (nr, nc)
    dt = draw(st.sampled_from([np.float32, np.float64]))
    blot = table(draw, s, [0.0, 0.0, 1.0, 2.5, -3.0, 8.0])
    sci = blot + table(draw, s, [0.0, 0.0, 1.5, -1.0, 4.0, 6.0, -6.0, 20.0, 2.0, -40.0])
    err = table(draw, s, [1.0, 1.0, 0.5, 2.0, 0.0, 0.25])
    for a, k in ((blot, "blot"), (sci, "sci"), (err, "err")):
        a[flagcube(draw, s, [1], draw(st.sampled_from([0, 0, 25]))) == 1] = np.nan
    v = st.sampled_from([3.0, 1.0, 4.0, 5.0, 2.0, 6.0, 0.0, 1.5])
    w = st.sampled_from([0.5, 0.0, 1.0, 0.25, 2.0, 1.25])
    return {"sci": sci.astype(dt), "err": err.astype(dt), "blot": blot.astype(dt), "snr": draw(v), "snr2": draw(v), "s1": draw(w), "s2": draw(w),
            "backg": draw(st.sampled_from([0.0, 1.0, -2.5, 0.5]))}


def exceeds(a, limit):
    return bool(a > limit)      # False for NaN


def deriv(b):
    nr, nc = b.shape
    out = np.full(b.shape, np.nan)
    for y in range(nr):
        for x in range(nc):
            if np.isnan(b[y, x]):
                continue
            m = 0.0
            for dy, dx in ((-1, 0), (1, 0), (0, -1), (0, 1)):
                v, u = y + dy, x + dx
                if 0 <= v < nr and 0 <= u < nc and not np.isnan(b[v, u]):
                    m = max(m, abs(float(b[v, u]) - float(b[y, x])))
            out[y, x] = m
    return out


def run(case):
    from stcal.outlier_detection.utils import flag_crs, flag_resampled_crs
    c = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in case.items()}
    sci, err, blot = (case[k].astype(np.float64) for k in ("sci", "err", "blot"))
    e0 = np.where(np.isnan(err), 0.0, err)
    simple = flag_crs(c["sci"], c["err"], c["blot"], c["snr"])
    with np.errstate(invalid="ignore"):
        want = np.abs(sci - blot) > case["snr"] * e0
    equal(np.asarray(simple), want, "outliers")
    res = np.asarray(flag_resampled_crs(c["sci"], c["err"], c["blot"], c["snr"], c["snr2"], c["s1"], c["s2"], c["backg"]))
    d = deriv(blot)
    nr, nc = sci.shape
    first, second = np.zeros((nr, nc), bool), np.zeros((nr, nc), bool)
    for y in range(nr):
        for x in range(nc):
            diff = abs(sci[y, x] - blot[y, x] - case["backg"])
            first[y, x] = exceeds(diff, case["s1"] * d[y, x] + case["snr"] * e0[y, x])
            second[y, x] = exceeds(diff, case["s2"] * d[y, x] + case["snr2"] * e0[y, x])
    w = np.zeros((nr, nc), bool)
    for y in range(nr):
        for x in range(nc):
            w[y, x] = second[y, x] and first[max(0, y - 1):y + 2, max(0, x - 1):x + 2].any()
    equal(res.astype(bool), w, "outliers with resampled reference")
    check(res.dtype == bool and not (res.view(np.uint8) > 1).any(), "the mask is not a clean boolean array")
    for k in ("sci", "err", "blot"):
        check(np.array_equal(c[k], case[k], equal_nan=True), f"input {k} was modified")
    return bool(w.any() and not w.all()), ["neighbour only" if (w & ~first).any() else "direct", "NaN" if np.isnan(sci + blot + err).any() else "no NaN"]


COMPONENTS = [Component("flags", images, run, quick=6000, thorough=200000, shards=8)]

import numpy as np
from vlib.core import Component, check, equal
from vlib.satref import DNU, FLOOR, SAT, call, expected, sat_cases

RULE = ("random ramps, thresholds (NaN, marked unchecked, 2-D and 4-D), growth distances and image shapes from one pixel, compared with a model; "
        "non-trivial when saturation starts after the first group and growth adds pixels; distinct by content")
MASK = ~np.int64(DNU)


def run(case, dnu=False):
    gdq, pdq, z, same = call(case)
    check(same, "the science data were changed")
    want, open_, wp, wz = expected(case)
    a, b = gdq.astype(np.int64), want
    if not dnu:
        a, b = np.where(case["pattern"] is None, a, a & MASK), np.where(case["pattern"] is None, b, b & MASK)
    diff = (a != b) & ~(open_ if dnu or case["pattern"] is None else np.zeros_like(open_))
    if diff.any():
        i, k, y, x = np.argwhere(diff)[0].tolist()
        check(False, f"flags of pixel ({y},{x}) integration {i} are {gdq[i, :, y, x].tolist()}, expected {want[i, :, y, x].tolist()}")
    equal(np.asarray(pdq).astype(np.int64), wp.astype(np.int64), "pixel flags")
    new = (want & SAT != 0) & (case["gdq"] & SAT == 0)
    late = new[:, 1:] & ~(want[:, :-1] & SAT != 0)
    with np.errstate(invalid="ignore"):
        own = np.logical_or.accumulate(case["data"] >= case["thr"], axis=1)
    grown = new & ~own
    return bool(late.any() and (grown.any() or case["grow"] == 0)), [f"grow {case['grow']}", "4-D" if case["thr"].ndim == 4 else "2-D",
                                                                  "floor" if (want & FLOOR).any() else "no floor"]


COMPONENTS = [Component("model", lambda: sat_cases(), run, quick=3000, thorough=100000, shards=8)]

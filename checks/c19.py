import numpy as np
from vlib.core import Component, check, close, equal, same_shape
from vlib.linref import NOLIN, SAT, bad_pixels, call, expected_simple, ident, lin_cases

RULE = ("random ramps and per-pixel polynomials of order 1 to 6 with missing, degenerate and flagged ones, random saturation and reference flags, "
        "zero frames; non-trivial when some sample is corrected and some pixel or sample must stay as it is; distinct by content")


def run(case):
    data, pdq, z = call(case)
    bad = bad_pixels(case)
    sat = (case["gdq"] & SAT) != 0
    keep = sat | bad[None, None]
    eps = 4 * max(np.finfo(case["data"].dtype).eps, np.finfo(case["lin"].dtype).eps)
    want, mag = expected_simple(case["data"], case["gdq"], ident(case["lin"], bad))
    same_shape(data, case["data"], "data")
    equal(data, case["data"], "samples that must stay as they are", mask=keep)
    close(data, want, "corrected samples", rtol=0, atol=eps * mag, mask=~keep)
    wp = case["pdq"] | case["ldq"] | np.where(bad, NOLIN, 0).astype(np.uint32)
    equal(pdq, wp, "pixel flags")
    labels = ["bad pixels" if bad.any() else "all good", f"order {case['lin'].shape[0] - 1}", f"{case['data'].dtype}"]
    if case["z"] is None:
        check(z is None, "a zero frame appeared")
    else:
        labels.append("zero frame")
        zero = case["z"] == 0
        kz = zero | bad[None]
        want, mag = expected_simple(case["z"], np.zeros(case["z"].shape, int), ident(case["lin"], bad))
        same_shape(z, case["z"], "zero frame")
        equal(z, case["z"], "zero-frame samples that must stay as they are", mask=kz)
        close(z, want, "corrected zero frame", rtol=0, atol=eps * mag, mask=~kz)
    return bool(keep.any() and not keep.all()), labels


def run_read(case):
    """Flags and zero frames follow the same rules with the read-level correction."""
    data, pdq, z = call(case)
    bad = bad_pixels(case)
    sat = (case["gdq"] & SAT) != 0
    equal(data, case["data"], "saturated samples", mask=sat)
    if case["extra"] is None:
        keep = bad[None, None] & ~sat
        if case["satval"] is not None:
            keep = keep & (case["data"] < 1.0 * case["satval"])       # reads are capped above saturation
            spread = np.abs(case["data"]).max(axis=1, keepdims=True) * 20
            keep = keep & (case["data"] + spread < 1.2 * case["satval"])
        eps = np.finfo(case["data"].dtype).eps
        close(data, case["data"], "samples of pixels without correction", rtol=0, atol=1e4 * eps * (np.abs(case["data"]).max() + 1), mask=keep)
    wp = case["pdq"] | case["ldq"] | np.where(bad, NOLIN, 0).astype(np.uint32)
    equal(pdq, wp, "pixel flags")
    if case["z"] is not None:
        kz = (case["z"] == 0) | bad[None]
        eps = 4 * max(np.finfo(case["data"].dtype).eps, np.finfo(case["lin"].dtype).eps)
        want, mag = expected_simple(case["z"], np.zeros(case["z"].shape, int), ident(case["lin"], bad))
        equal(z, case["z"], "zero-frame samples that must stay as they are", mask=kz)
        close(z, want, "corrected zero frame", rtol=0, atol=eps * mag, mask=~kz)
    return bool(bad.any() and not bad.all()), ["bad pixels" if bad.any() else "all good"]


COMPONENTS = [Component("polynomial", lambda: lin_cases(), run, quick=2500, thorough=80000, shards=8),
              Component("read-level", lambda: lin_cases(read=True, max_pix=24), run_read, quick=600, thorough=10000, shards=4)]

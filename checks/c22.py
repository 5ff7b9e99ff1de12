import numpy as np
from vlib.core import Component, check, close, equal
from vlib.darkref import call, dark_cases, used_dark

RULE = ("random science segments and darks (3-D, 4-D, matching, averaged, extrapolated, unmatched, NaN samples); non-trivial when the darks of integrations "
        "differ and several are used or the segment starts late, or a NaN is subtracted; distinct by content")


def run(case):
    out, avg, same = call(case)
    check(same, "the science input was modified")
    equal(out.groupdq, case["gdq"], "group flags")
    labels = [case["kind"]]
    if case["kind"] == "skip":
        check(out.cal_step == "SKIPPED", f"status {out.cal_step}")
        check(avg is None, "a dark was returned")
        equal(out.data, case["sci"], "science data")
        equal(out.pixeldq, case["pdq"], "pixel flags")
        return True, labels
    check(out.cal_step == "COMPLETE", f"status {out.cal_step}")
    d = used_dark(case)
    ni, ng = case["sci"].shape[:2]
    start = case["start"] or 1
    idx = [min(start - 1 + i, len(d) - 1) for i in range(ni)]
    scale = np.nanmax(np.abs(np.nan_to_num(case["dark"].astype(float)))) * (1 + ng * (case["nf"] + case["gap"])) + 1
    tol = 8 * np.finfo(np.float32).eps * scale + 2 * np.finfo(case["sci"].dtype).eps * np.abs(case["sci"])
    close(out.data, case["sci"].astype(float) - d[idx], "corrected science", rtol=0, atol=np.nan_to_num(tol))
    ddq = case["ddq"] if case["ddq"].ndim == 2 else np.bitwise_or.reduce(case["ddq"][:, 0], axis=0)
    equal(out.pixeldq, case["pdq"] | ddq, "pixel flags")
    labels += [f"{case['dark'].ndim}-D", "late segment" if start > 1 else "first segment", "NaN" if np.isnan(case["dark"]).any() else "no NaN"]
    return bool(len(set(idx)) > 1 or start > 1 or np.isnan(case["dark"]).any()), labels


COMPONENTS = [Component("subtract", lambda: dark_cases(), run, quick=3000, thorough=80000, shards=8)]

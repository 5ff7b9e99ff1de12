import numpy as np
from vlib.core import Component, check, close, equal
from vlib.darkref import call, dark_cases, used_dark

RULE = ("random pairs of readout patterns, 3-D and 4-D darks that are too long, exact or too short, NaNs; the dark the code averaged (and the one it "
        "subtracted) against brute-force frame lists; non-trivial when groups average several frames or frames are extrapolated; distinct by content")


def run(case):
    out, avg, _ = call(case)
    want = used_dark(case)
    scale = np.nanmax(np.abs(np.nan_to_num(case["dark"].astype(float)))) * (1 + case["sci"].shape[1] * (case["nf"] + case["gap"])) + 1
    tol = 8 * np.finfo(np.float32).eps * scale
    ni, ng = case["sci"].shape[:2]
    match = (case["dnf"], case["dgap"]) == (case["nf"], case["gap"])
    check((avg is None) == (match and case["out"] is None), "averaged dark")
    start = case["start"] or 1
    first = min(start - 1, want.shape[0] - 1)
    if avg is not None:
        check(avg.exp_nframes == case["nf"] and avg.exp_groupgap == case["gap"], "readout pattern of the averaged dark")
        check(bool(avg.save) == (case["out"] is not None) and avg.output_name == case["out"], "request to save the dark")
        got = np.asarray(avg.data)
        got = got[None] if got.ndim == 3 else got
        check(got.shape[0] == want.shape[0] and got.shape[1] >= ng, "shape of the averaged dark")
        used = sorted({min(start - 1 + i, want.shape[0] - 1) for i in range(ni)})
        close(got[used][:, :ng], want[used], "averaged dark", rtol=0, atol=tol)
        equal(avg.groupdq, case["ddq"], "flags of the averaged dark")
        check(avg.exp_ngroups == got.shape[1], "number of groups of the averaged dark")
    frames = ng if match else ng * case["nf"] + (ng - 1) * case["gap"]
    short = frames > case["dark"].shape[-3]
    labels = [case["kind"], "extrapolated" if short else "long enough", f"{case['dark'].ndim}-D"]
    return bool(short or (not match and case["nf"] > 1)), labels


COMPONENTS = [Component("average", lambda: dark_cases("average"), run, quick=2500, thorough=60000, shards=8),
              Component("match", lambda: dark_cases("match"), run, quick=800, thorough=20000, shards=4)]

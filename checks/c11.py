import numpy as np
from checks.c10 import verify
from vlib.cas22 import Pattern, call, cas_cases, combine, detect, fit_run
from vlib.core import Component, check, equal, fail

RULE = ("random read patterns with injected steps (also part-way through a resultant), flags and thresholds; the expected splits come from a "
        "recursive reference; pixels within rounding of a threshold or tie are skipped; non-trivial when a split happens")
JUMP = 4


def run(case):
    p, v, q = call(case, True)
    pat = Pattern(case["reads"], case["rt"])
    some = skipped = 0
    for i in range(case["res"].shape[1]):
        y, rn = case["res"][:, i].astype(float), float(case["rn"][i])
        d = case["dq"][:, i].astype(np.int64)
        r = detect(pat, y, rn, d == 0, case["thr"])
        if r is None:
            skipped += 1
            continue
        jumps, keep = r
        want = d.copy()
        want[sorted(jumps)] = JUMP
        if not np.array_equal(q[:, i], want):
            fail(f"flags of pixel {i}: {q[:, i].tolist()}, expected {want.tolist()} (input {d.tolist()})")
        verify(i, p, v, combine([fit_run(pat, y, rn, a, b) for a, b in keep]))
        some += bool(jumps)
    return some > 0, [f"{min(some, 3)} pixels split"] + (["ambiguous pixel skipped"] if skipped else []) + [f"threshold {case['thr']}"]


COMPONENTS = [Component("splits", lambda: cas_cases(jumps=True, min_res=2), run, quick=5000, shards=8, crashy=True),
              Component("near-threshold", lambda: cas_cases(jumps=True, min_res=2, near=True), run, quick=2000, shards=8, crashy=True)]

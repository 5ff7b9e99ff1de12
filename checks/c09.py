import numpy as np
from vlib.core import Component, check, equal, fail
from vlib.likely import call, detect, likely_cases, prepare, thresholds
from vlib.ramps import JUMP

RULE = ("ramps with steps of 3-200 sigma over all read patterns and thresholds; the expected rejections come from brute-force refits leaving "
        "out one or two differences; pixels where two candidates or a threshold are within rounding are skipped; non-trivial when a difference is rejected")


def run(case):
    (image, integ, opt), rd = call(case)
    cv, d, use, gdq, zero = prepare(case)
    t1, t2 = thresholds(case["thr"])
    rn = case["rn"] / np.sqrt(np.float32(2))
    new = np.asarray(rd.groupdq).astype(np.int64)
    nints, nd, nr, nc = d.shape
    rejected = amb = 0
    labs = set()
    for i in range(nints):
        for r in range(nr):
            for c in range(nc):
                u = use[i, :, r, c]
                after, a = detect(d[i, :, r, c], u, cv, float(case["gain"][r, c]), float(rn[r, c]), t1, t2)
                if a:
                    amb += 1
                    continue
                gone = np.concatenate([[False], u & ~after])
                if zero:
                    gone = gone[1:]
                want = case["gdq"][i, :, r, c].astype(np.int64) | np.where(gone, JUMP, 0)
                got = new[i, :, r, c]
                if not np.array_equal(got, want):
                    fail(f"group flags of integration {i} pixel {(r, c)}: {got.tolist()}, expected {want.tolist()} "
                         f"(input {case['gdq'][i, :, r, c].tolist()}, thresholds {t1:.2f}/{t2:.2f})")
                k = int((u & ~after).sum())
                rejected += k
                if k:
                    labs.add(f"{min(k, 4)} rejected")
                if u.sum() <= 3:
                    labs.add("three or fewer usable")
    if amb:
        labs.add("ambiguous pixel skipped")
    return rejected > 0, sorted(labs) + (["zero frame"] if zero else []) + [f"threshold {case['thr']}"]


COMPONENTS = [Component("rejection", lambda: likely_cases(), run, quick=900, shards=8),
              Component("rejection-long", lambda: likely_cases(min_groups=8, max_groups=18, max_ints=1, npix=6), run, quick=300, shards=8)]

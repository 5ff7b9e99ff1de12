import numpy as np
from checks.c17 import run as run17
from vlib.core import Component, check, equal
from vlib.satref import DNU, call, expected, sat_cases

RULE = ("random read patterns (even, uneven, single reads), ramps hit part-way through a group, biases and zero frames, compared with a model; "
        "non-trivial when a group is marked unusable before a saturated one, or a zero-frame pixel is zeroed; distinct by content")


def run(case):
    run17(case, dnu=True)
    gdq, pdq, z, _ = call(case)
    stats = {}
    want, open_, wp, wz = expected(case, stats)
    extra = (want & DNU != 0) & (case["gdq"] & DNU == 0) & ~(case["data"] <= 0)
    labels = ["extra" if extra.any() else "no extra"] + (["second-group rule"] if stats.get("second") else [])
    if case["pattern"] is None or all(len(p) == 1 for p in case["pattern"]):
        bad = (gdq.astype(int) & DNU != 0) & (case["gdq"] & DNU == 0) & ~(case["data"] <= 0)
        check(not bad.any(), "a group was marked unusable without frame averaging")
        labels.append("no averaging")
    if case["z"] is None:
        check(z is None, "a zero frame appeared")
    else:
        equal(z, wz, "zero frame")
    return bool(extra.any() or (wz is not None and (wz != case["z"]).any())), labels


COMPONENTS = [Component("averaged", lambda: sat_cases(averaged=True), run, quick=2500, thorough=80000, shards=8),
              Component("zero-frame", lambda: sat_cases(zero=True), run, quick=800, thorough=20000, shards=4)]

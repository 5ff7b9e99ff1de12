import numpy as np
from hypothesis import strategies as st
from vlib.core import Component, check, equal
from vlib.jumpref import DNU, JUMP, Model, SAT, call, jump_cases

RULE = ("random cubes processed in one piece and in 2 to 8 row slices with the same settings; non-trivial when a jump lies in a row next to a slice boundary; "
        "distinct by content")


def slices(nrows, n):
    inc = nrows // n
    return [(k * inc, (k + 1) * inc if k < n - 1 else nrows) for k in range(n)]


def full_group_in_a_slice(case, m, n):
    """Known finding K1: with sigma clipping, a group whose every pixel of a slice is a jump is taken back slice by slice."""
    if m.method != "sigclip":
        return False
    bad = (m.before & (JUMP | DNU)) != 0
    nr = bad.shape[2]
    for a, b in slices(nr, n):
        for lo, hi in ((a, b), (max(a - 1, 0), min(b + 1, nr)), (0, nr)):
            if bad[:, :, lo:hi].all(axis=(2, 3)).any():
                return True
    return bool(m.fragile.any())


def kept(case, gdq, what):
    g0, g1 = case["gdq"].astype(int), gdq.astype(int)
    un = (g0 & (DNU | SAT)) != 0
    lost = g0 & ~g1 & ~np.where(un, JUMP, 0)
    if lost.any():
        check(False, f"{what}: flags {int(lost[lost != 0][0])} of sample {np.argwhere(lost)[0].tolist()} were cleared")
    new = g1 & ~g0 & ~JUMP
    check(not new.any(), f"{what}: flags other than jumps were added")


def run(case):
    m = Model(case)
    n = case["slices"]
    a, pa, na, _, same = call(case)
    check(same, "the science data were changed")
    if not (m.method == "sigclip" and (m.reset or m.fragile.any())):
        kept(case, a, "one piece")
    labels = [m.method]
    if full_group_in_a_slice(case, m, n):
        return False, ["group full of jumps in a slice (K1), not compared"]
    b, pb, nb, _, same = call(case, cores=str(n))
    check(same, "the science data were changed (sliced)")
    diff = a != b
    if diff.any():
        i, g, y, x = np.argwhere(diff)[0].tolist()
        check(False, f"{n} slices of {a.shape[2]} rows: flags of pixel ({y},{x}) integration {i} are {b[i, :, y, x].tolist()}, in one piece {a[i, :, y, x].tolist()}")
    equal(pb.astype(np.int64), pa.astype(np.int64), "pixel flags")
    check(na == nb, f"{nb} primary jumps in {n} slices, {na} in one piece")
    kept(case, b, f"{n} slices")
    seam = sorted({r for lo, hi in slices(a.shape[2], n) for r in (lo, hi - 1)} - {0, a.shape[2] - 1})
    hit = ((a & ~case["gdq"]) & JUMP) != 0
    return bool(seam and hit[:, :, seam].any()), labels + [f"{n} slices"]


@st.composite
def cases(draw):
    c = draw(jump_cases(spread=True, min_rows=2, max_rows=12, max_cols=4, other=True))
    c["slices"] = draw(st.integers(2, min(8, c["data"].shape[2])))
    return c


def probe_k1():
    """Four rows, 6 integrations of 3 groups, sigma clipping between integrations, a jump in three rows."""
    data = np.zeros((6, 3, 4, 1), np.float32)
    data[:, :, :, 0] = np.arange(3)[None, :, None] * 10.0
    data[0, 1:, :3, 0] += 1000
    case = {"mode": "sigclip", "data": data, "gdq": np.zeros(data.shape, np.uint8), "pdq": np.zeros((4, 1), np.uint32),
            "gain": np.ones((4, 1), np.float32), "rn": np.full((4, 1), 5.0, np.float32), "nframes": 1, "pattern": None,
            "thr": [1.5, 3.0, 3.0], "single": 10, "min_groups": 3, "min_sig": 3, "use_ints": True, "four": False, "nmax": 1000.0, "nmin": 10.0,
            "after": [0.0, 0, 0.0, 0]}
    a = call(case)[0]
    b = call(case, cores="2")[0]
    return not np.array_equal(a, b)


PROBES = {"K1": probe_k1}

COMPONENTS = [Component("slices", cases, run, quick=3000, thorough=60000, shards=8)]

import numpy as np
from hypothesis import strategies as st
from vlib.core import Component, check
from vlib.gen import raw8
from vlib.jumpref import DNU, JUMP, Model, SAT, call, jump_cases

RULE = ("random images with jumps anywhere (corners, edges, last groups, next to unusable samples) and random neighbour and after-jump settings, "
        "compared with a model; non-trivial when the spreading adds a flag; distinct by content")


def compare(case, m):
    want, sure = m.spread()
    gdq, pdq, ncr, _, same = call(case)
    diff = (gdq.astype(int) != want) & sure
    if diff.any():
        i, g, y, x = np.argwhere(diff)[0].tolist()
        check(False, f"{m.method}: flags of pixel ({y},{x}) integration {i} are {gdq[i, :, y, x].tolist()}, expected {want[i, :, y, x].tolist()}"
                     f" (detected {m.flags[i, :, y, x].tolist()})")
    added = (want != np.where((m.flags & (DNU | SAT)) != 0, m.flags & ~JUMP, m.flags)) & sure
    return added, sure


def run(case):
    m = Model(case)
    added, sure = compare(case, m)
    return bool(added.any()), [m.method, "neighbours" if case["four"] else "no neighbours",
                               "after" if case["after"][1] or case["after"][3] else "not after"] + ([] if sure.all() else ["some pixels skipped"])


@st.composite
def long_cases(draw):
    """Many groups and few jumps."""
    ng = draw(st.integers(54, 90))
    nr, nc, ni = draw(st.integers(1, 6)), draw(st.integers(4, 8)), draw(st.integers(1, 2))
    shape = (ni, ng, nr, nc)
    z = raw8(draw, 64)
    noise = (np.resize(z, ni * (ng - 1) * nr * nc).reshape(ni, ng - 1, nr, nc) % 16 - 7.5) * 0.5
    inc = 20.0 + noise
    gdq = np.zeros(shape, np.uint8)
    for k in range(draw(st.integers(1, 4))):
        inc[draw(st.integers(0, ni - 1)), draw(st.integers(0, ng - 2)), draw(st.integers(0, nr - 1)), draw(st.integers(0, nc - 1))] += \
            draw(st.sampled_from([500.0, 90.0, 2500.0, -300.0]))
    for k in range(draw(st.integers(0, 3))):
        i, y, x, g = draw(st.integers(0, ni - 1)), draw(st.integers(0, nr - 1)), draw(st.integers(0, nc - 1)), draw(st.integers(1, ng - 1))
        v = draw(st.sampled_from([SAT, DNU]))
        gdq[i, g:(ng if v == SAT else g + 2), y, x] |= v
    data = np.zeros(shape)
    data[:, 1:] = np.cumsum(inc, axis=1)
    return {"mode": "long", "data": data.astype(np.float32), "gdq": gdq, "pdq": np.zeros((nr, nc), np.uint32),
            "gain": np.ones((nr, nc), np.float32), "rn": np.full((nr, nc), 8.0, np.float32), "nframes": 1, "pattern": None,
            "thr": [5.5, 6.0, 6.0], "single": 10, "min_groups": 3, "min_sig": 100 if ni * ng < 100 else 400, "use_ints": False,
            "four": draw(st.booleans()), "nmax": 1000.0, "nmin": 10.0,
            "after": [draw(st.sampled_from([100.0, 1000.0])), draw(st.sampled_from([3, 51, 60, 70, 200, 0])),
                      draw(st.sampled_from([1000.0, 50.0])), draw(st.sampled_from([0, 55, 20]))]}


COMPONENTS = [Component("model", lambda: jump_cases(spread=True), run, quick=3000, thorough=80000, shards=8),
              Component("many-groups", long_cases, run, quick=300, thorough=6000, shards=6)]

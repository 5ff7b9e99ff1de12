import numpy as np
from hypothesis import strategies as st
from vlib.core import Component, check
from vlib.events import Fragile, large_events
from vlib.gen import raw8
from vlib.jumpref import call

RULE = ("clusters of jumps with saturated cores of random shapes, sizes, tilts, positions and times drawn into flag cubes of square and oblong images, "
        "random settings, compared with a model of moments and ellipses (pixels on an ellipse's border left open); "
        "non-trivial when an event is found; distinct by content")
DNU, SAT, JUMP = 1, 2, 4


@st.composite
def cases(draw):
    nr, nc = draw(st.sampled_from([(24, 24), (40, 40), (20, 44), (44, 20), (60, 30), (12, 12)]))
    ni, ng = draw(st.integers(1, 3)), draw(st.integers(2, 6))
    g = np.zeros((ni, ng, nr, nc), np.int64)
    r, c = np.mgrid[:nr, :nc]
    desc = []
    for k in range(draw(st.integers(1, 4))):
        i, t = draw(st.integers(0, ni - 1)), draw(st.integers(1, ng - 1))
        y, x = draw(st.integers(-2, nr + 1)), draw(st.integers(-2, nc + 1))
        a, b = draw(st.integers(1, 9)), draw(st.integers(1, 9))
        ang = np.radians(draw(st.sampled_from([0, 0, 30, 45, 70, 90, 120, 160])))
        u, v = (r - y) * np.cos(ang) + (c - x) * np.sin(ang), (r - y) * np.sin(ang) - (c - x) * np.cos(ang)
        shape = draw(st.sampled_from(["ellipse", "box", "rough"]))
        if shape == "box":
            body = (np.abs(u) < a) & (np.abs(v) < b)
        else:
            body = (u / (a + 0.3))**2 + (v / (b + 0.3))**2 < 1
        if shape == "rough":
            noise = np.resize(raw8(draw, 64), (nr, nc)) + (r * 7 + c * 13) % 50
            body &= noise < 240
        core = draw(st.sampled_from(["centre", "none", "off", "later", "big", "outside"]))
        frac = {"centre": 0.45, "none": 0, "off": 0.3, "later": 0.45, "big": 0.8, "outside": 0.3}[core]
        du = {"off": 0.6 * a, "outside": a + 4}.get(core, 0)
        co = ((u - du) / (frac * a + 0.01))**2 + (v / (frac * b + 0.01))**2 < 1 if frac else np.zeros((nr, nc), bool)
        g[i, t][body] |= JUMP
        g[i, (t + (core == "later")):, co] |= SAT
        desc.append(core)
    for k in range(draw(st.integers(0, 3))):
        i, t = draw(st.integers(0, ni - 1)), draw(st.integers(0, ng - 1))
        y, x, s = draw(st.integers(0, nr - 1)), draw(st.integers(0, nc - 1)), draw(st.integers(1, 6))
        v = draw(st.sampled_from([DNU, DNU | 64, JUMP, SAT, 16]))
        if v == SAT:
            g[i, t:, y:y + s, x:x + s] |= v
        else:
            g[i, t, y:y + s, x:x + s] |= v
    g |= np.where(np.cumsum(g & SAT, axis=1) > 0, SAT, 0)
    un = (g & (SAT | DNU)) != 0
    return {"gdq": np.where(un, g & ~JUMP, g).astype(np.uint8), "desc": desc,
            "min_jump_area": draw(st.sampled_from([5, 1, 10, 30])), "min_sat_area": draw(st.sampled_from([1, 2, 6, 15])),
            "expand_factor": draw(st.sampled_from([2.0, 1.0, 1.5, 3.0, 1.9])), "sat_required": draw(st.sampled_from([True, True, True, False])),
            "min_sat_radius_extend": draw(st.sampled_from([2.5, 0.5, 5.0])), "sat_expand": draw(st.sampled_from([2, 0, 1, 5])),
            "edge_size": draw(st.sampled_from([0, 3, 8])), "max_width": draw(st.sampled_from([200, 200, 12, 7])),
            "mask_next": draw(st.booleans()), "persist_grps": draw(st.sampled_from([25, 2, 3, 0, 1]))}


def run(case):
    ni, ng, nr, nc = case["gdq"].shape
    base = {"data": np.broadcast_to((np.arange(ng) * 10.0)[None, :, None, None], case["gdq"].shape).astype(np.float32).copy(), "gdq": case["gdq"],
            "pdq": np.zeros((nr, nc), np.uint32), "gain": np.ones((nr, nc), np.float32), "rn": np.full((nr, nc), 10.0, np.float32), "nframes": 1,
            "pattern": None, "thr": [4.0, 6.0, 5.0], "single": 10, "min_groups": 3, "min_sig": 1000, "use_ints": True, "four": False,
            "nmax": 1000.0, "nmin": 10.0, "after": [0.0, 0, 0.0, 0]}

    def tweak(jd):
        jd.set_snowball_info(True, case["min_jump_area"], case["min_sat_area"], case["expand_factor"], case["sat_required"],
                             case["min_sat_radius_extend"], case["sat_expand"], case["edge_size"])
        jd.max_extended_width = case["max_width"]
        jd.mask_persist_grps_next_int = case["mask_next"]
        jd.persist_grps_flagged = case["persist_grps"]
    gdq, pdq, ncr, n, same = call(base, tweak=tweak)
    g0, g1 = case["gdq"].astype(int), gdq.astype(int)
    lost = g0 & ~g1 & ~np.where((g1 & SAT) != 0, JUMP, 0)
    check(not lost.any(), "flags set on input were cleared")
    check(not ((g1 & ~g0) & ~(SAT | JUMP)).any(), "flags other than jumps and saturation were added")
    check((g1[:, 0] == g0[:, 0]).all(), "the first group was changed")
    try:
        want, open_, total, sizes = large_events(case["gdq"], case)
    except Fragile:
        return False, ["hangs on rounding, not compared"]
    check(n == total, f"{n} events reported, expected {total}")
    diff = (g1 != want) & ~open_
    if diff.any():
        i, k, y, x = np.argwhere(diff)[0].tolist()
        check(False, f"{int(diff.sum())} samples differ, e.g. integration {i} group {k} pixel ({y},{x}): flags {g1[i, k, y, x]}, expected {want[i, k, y, x]}")
    return total > 0, ["events" if total else "none", "core required" if case["sat_required"] else "no core required",
                       "extended core" if ((want & SAT) > (g0 & SAT)).any() else "plain"]


COMPONENTS = [Component("model", cases, run, quick=1600, thorough=40000, shards=8)]

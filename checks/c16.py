import numpy as np
from hypothesis import strategies as st
from vlib.core import Component, check
from vlib.events import Fragile, showers
from vlib.gen import raw8, flagcube
from vlib.jumpref import call

RULE = ("ramps with extended brightness steps of random shape, amplitude, position and time over flagged, saturated and reference pixels, "
        "compared with a model of the smoothed excess; non-trivial when a shower is found; distinct by content")
DNU, SAT, JUMP, REF = 1, 2, 4, 128


@st.composite
def cases(draw, blobs=True):
    nr, nc = draw(st.sampled_from([(20, 20), (28, 28), (16, 34), (30, 18)]))
    clip = draw(st.integers(0, 3)) == 0
    ni, ng = (draw(st.integers(4, 6)), draw(st.integers(4, 6))) if clip else (draw(st.integers(1, 2)), draw(st.integers(7, 13)))
    if draw(st.integers(0, 9)) == 0:
        ni, ng = 1, draw(st.integers(5, 11))
    r, c = np.mgrid[:nr, :nc]
    rate = draw(st.sampled_from([10.0, 2.0, 40.0]))
    rn = draw(st.sampled_from([5.0, 8.0, 3.0]))
    nframes = draw(st.sampled_from([1, 4]))
    gain = draw(st.sampled_from([1.0, 1.0, 4.0, 2.5]))
    sig = float(np.sqrt(rate * gain + (rn * gain)**2 / nframes)) / gain
    noise = draw(st.sampled_from([0.0, 0.3, 0.6] if blobs else [0.0, 0.15]))
    if clip:
        noise = max(noise, 0.3)
    z = raw8(draw, 256)
    idx = (np.arange(ni * (ng - 1) * nr * nc) * 2654435761 >> 7) % 65521
    z = z[(idx ^ (idx >> 5)) % 256].reshape(ni, ng - 1, nr, nc)
    inc = rate + (z - z.mean()) / 64.0 * noise * sig
    if blobs:
        for k in range(draw(st.integers(1, 3))):
            i, t = draw(st.integers(0, ni - 1)), draw(st.integers(0, ng - 2))
            y, x = draw(st.integers(0, nr)), draw(st.integers(0, nc))
            a, b = draw(st.integers(3, 9)), draw(st.integers(2, 9))
            ang = np.radians(draw(st.sampled_from([0, 40, 90, 135])))
            u, v = (r - y) * np.cos(ang) + (c - x) * np.sin(ang), (r - y) * np.sin(ang) - (c - x) * np.cos(ang)
            inc[i, t] += np.where((u / a)**2 + (v / b)**2 < 1, draw(st.sampled_from([2.0, 1.4, 3.0, 3.6, -2.5, 0.8, 8.0])) * sig, 0.0)
    data = np.zeros((ni, ng, nr, nc))
    data[:, 1:] = np.cumsum(inc, axis=1)
    data += 100.0
    g = flagcube(draw, (ni, ng, nr, nc), [DNU, DNU | 64, JUMP, SAT, 16, DNU | 16], draw(st.sampled_from([0, 0, 3, 10]))).astype(np.int64) \
        if draw(st.booleans()) else np.zeros((ni, ng, nr, nc), np.int64)
    if draw(st.integers(0, 3)) == 0:
        g[:, 0] |= DNU
    if draw(st.integers(0, 3)) == 0:
        g[:, -1] |= DNU
    if draw(st.integers(0, 3)) == 0:
        y, x = draw(st.integers(0, nr - 1)), draw(st.integers(0, nc - 1))
        t = draw(st.integers(1, ng - 1))
        g[:, t:(ng if draw(st.booleans()) else t + 1), y:y + 6, x:x + 5] |= draw(st.sampled_from([SAT, DNU | 64, DNU]))
    g |= np.where(np.cumsum(g & SAT, axis=1) > 0, SAT, 0)
    un = (g & (SAT | DNU)) != 0
    g = np.where(un, g & ~JUMP, g)
    pdq = np.zeros((nr, nc), np.uint32)
    if draw(st.booleans()):
        pdq[:, :2] = draw(st.sampled_from([REF, REF | DNU]))
    if draw(st.integers(0, 2)) == 0:
        y, x = draw(st.integers(0, nr - 1)), draw(st.integers(0, nc - 1))
        pdq[y:y + 4, x:x + 3] = draw(st.sampled_from([DNU, 1024, DNU | 1024]))
    return {"data": data.astype(np.float32), "gdq": g.astype(np.uint8), "pdq": pdq, "gain": np.full((nr, nc), gain, np.float32),
            "rn": np.full((nr, nc), rn, np.float32), "nframes": nframes, "pattern": None, "thr": [draw(st.sampled_from([4.0, 30.0])), 60.0, 50.0],
            "single": 10, "min_groups": 3, "min_sig": draw(st.sampled_from([3, 4])) if clip else 100, "use_ints": False, "four": False,
            "nmax": 1000.0, "nmin": 10.0, "after": [0.0, 0, 0.0, 0],
            "snr": draw(st.sampled_from([1.2, 1.0, 1.7])), "min_area": draw(st.sampled_from([10, 5, 20, 30, 60, 90])),
            "inner": draw(st.sampled_from([1, 1, 2])), "outer": draw(st.sampled_from([2.6, 1.0, 2.0])),
            "ratio": draw(st.sampled_from([1.2, 1.0, 1.7])), "after_groups": draw(st.sampled_from([5, 0, 1, 3, 50])),
            "amp": draw(st.sampled_from([20.0, 1e6, 6.0, 1.0, 0.3, 1e6])), "max_width": draw(st.sampled_from([200, 200, 10])), "slices": draw(st.sampled_from([1, 1, 3]))}


def call_showers(case):
    def tweak(jd):
        jd.set_shower_info(True, case["snr"], case["min_area"], case["inner"], case["outer"], case["ratio"], case["single"], case["max_width"])
        jd.grps_masked_after_shower = case["after_groups"]
        jd.max_shower_amplitude = case["amp"]
    plain = call(case)[0]
    return plain, call(case, cores=str(case["slices"]), tweak=tweak)


def run(case):
    from astropy.convolution import Ring2DKernel
    plain, (gdq, pdq, ncr, n, same) = call_showers(case)
    check(same, "the science data were changed")
    g0, g1 = plain.astype(int), gdq.astype(int)
    check(not (g0 & ~g1).any(), "flags were cleared by the shower search")
    check(not ((g1 & ~g0) & ~JUMP).any(), "flags other than jumps were added by the shower search")
    p = {"min_sig": case["min_sig"], "nframes": case["nframes"], "snr": case["snr"], "min_area": case["min_area"], "ratio": case["ratio"],
         "max_width": case["max_width"], "after": case["after_groups"], "amp": case["amp"],
         "kernel": Ring2DKernel(case["inner"], case["outer"]).array}
    try:
        want, open_, total, info = showers(case["data"] * case["gain"], plain, case["pdq"], case["rn"] * case["gain"], p)
    except Fragile:
        return False, ["hangs on rounding, not compared"]
    check(n == total, f"{n} showers reported, expected {total}")
    diff = (g1 != want) & ~open_
    if diff.any():
        i, k, y, x = np.argwhere(diff)[0].tolist()
        check(False, f"{int(diff.sum())} samples differ, e.g. integration {i} group {k} pixel ({y},{x}): flags {g1[i, k, y, x]}, expected {want[i, k, y, x]}")
    return total > 0, ["showers" if total else "none", "clipped noise" if case["data"].shape[0] >= case["min_sig"] else "modelled noise"] \
        + (["reverted"] if info["reverted"] else []) + (["flagged"] if (want != g0).any() else [])


def run_quiet(case):
    """Ramps without extended steps have no showers."""
    plain, (gdq, pdq, ncr, n, same) = call_showers(dict(case, snr=max(case["snr"], 1.2), min_sig=100))
    check(n == 0 and np.array_equal(plain, gdq), f"{n} showers found in quiet ramps")
    return True, []


COMPONENTS = [Component("model", lambda: cases(), run, quick=1600, thorough=30000, shards=8),
              Component("quiet", lambda: cases(blobs=False), run_quiet, quick=200, thorough=4000, shards=4)]

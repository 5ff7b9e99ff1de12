import os, tempfile, tracemalloc
import numpy as np
from hypothesis import strategies as st
from vlib.core import Component, check, close
from vlib.gen import flagcube, uniform

RULE = ("random stacks larger than their buffers whose allocations are traced, interleaved histories of several stacks in one directory with refused images, and "
        "random limits on allocations; non-trivial when the stack is several times its buffer (memory), several stacks are mixed (histories), and something "
        "is allocated (limits); distinct by content")
KB = 1024
WORK = 16      # rows of all images that may be worked on at once


@st.composite
def stacks(draw):
    n = draw(st.integers(8, 60))
    nr, nc = draw(st.integers(24, 200)), draw(st.integers(24, 160))
    dt = draw(st.sampled_from([np.float32, np.float64]))
    row = n * nc * np.dtype(dt).itemsize
    buf = draw(st.sampled_from([None, 0, 1, row, row * 3, row * 2 + 7, row * (nr // 4 + 1), row * (nr // 2 + 1)]))
    return {"n": n, "nr": nr, "nc": nc, "dt": np.dtype(dt).name, "buffer": buf, "z": uniform(draw, (64,), 0.0, 100.0), "nan": draw(st.integers(0, 3))}


def image(case, k):
    j = (np.arange(case["nr"] * case["nc"]) * 7919 + 31 * k * k + k) % 64
    a = case["z"][j].reshape(case["nr"], case["nc"]).astype(case["dt"])
    if case["nan"]:
        a.ravel()[(k * 13) % 5::5 + case["nan"]] = np.nan
    return a


def traced(f):
    """Result and peak of the allocations of f above those at its start."""
    tracemalloc.start()
    try:
        base = tracemalloc.get_traced_memory()[0]
        tracemalloc.reset_peak()
        r = f()
        return r, tracemalloc.get_traced_memory()[1] - base
    finally:
        tracemalloc.stop()


def run_memory(case):
    from stcal.outlier_detection.median import MedianComputer, nanmedian3D
    n, nr, nc, dt = case["n"], case["nr"], case["nc"], np.dtype(case["dt"])
    frame, row = nr * nc * dt.itemsize, n * nc * dt.itemsize
    cube = np.stack([image(case, k) for k in range(n)])
    with np.errstate(all="ignore"):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            want = np.nanmedian(cube, axis=0)
    tol = 4 * np.finfo(dt).eps * 100

    def disk(tmp):
        m = MedianComputer((n, nr, nc), False, buffer_size=case["buffer"], dtype=dt, tempdir=tmp)
        for k in range(n):
            m.append(cube[k].copy())
        return m.evaluate()

    with tempfile.TemporaryDirectory() as tmp:
        got, peak = traced(lambda: disk(tmp))
    close(got, want, "median on disk", rtol=0, atol=tol)
    allowed = max(case["buffer"] or frame, row) + 3 * frame + WORK * row + 100 * KB      # buffer, median, an image and a copy, some rows, the rest
    check(peak <= allowed, f"the median on disk of {n} images of {nr} x {nc} ({case['dt']}) with a buffer of {case['buffer']} bytes needed {peak} bytes at once, expected at most {allowed} (the stack has {cube.nbytes})")
    got, peak2 = traced(lambda: nanmedian3D(cube))
    close(got, want, "median of the cube", rtol=0, atol=tol)
    check(peak2 <= frame + WORK * row + 100 * KB, f"the median of a cube of {cube.nbytes} bytes that may be overwritten needed {peak2} bytes more, expected at most {frame + WORK * row + 100 * KB}")
    sharp = allowed < 0.8 * cube.nbytes
    return sharp, ["more than the stack" if not sharp else "less than the stack", case["dt"]]


@st.composite
def histories(draw):
    """Several stacks in the same directory, fed in turns, some images refused."""
    ms = []
    for k in range(draw(st.integers(1, 4))):
        n, nr, nc = draw(st.integers(1, 6)), draw(st.integers(1, 7)), draw(st.integers(1, 5))
        ms.append({"n": n, "nr": nr, "nc": nc, "dt": draw(st.sampled_from(["float32", "float64"])),
                   "buffer": draw(st.sampled_from([None, 0, 1, n * nc * 8, n * nc * nr * 4, 10**6]))})
    ops = draw(st.lists(st.tuples(st.integers(0, len(ms) - 1), st.sampled_from(["add", "add", "add", "add", "shape", "type", "done"])), min_size=1, max_size=40))
    return {"stacks": ms, "ops": [list(o) for o in ops], "z": uniform(draw, (251,), -50, 1000), "nan": flagcube(draw, (251,), [1], draw(st.sampled_from([0, 60])))}


def run_histories(case):
    from stcal.outlier_detection.median import MedianComputer
    z = np.where(case["nan"] == 1, np.nan, case["z"])
    refused = mixed = 0
    with tempfile.TemporaryDirectory() as tmp:
        live, kept, done, medians = {}, {}, [], 0

        def add(k):
            m = case["stacks"][k]
            if k not in live:
                live[k] = MedianComputer((m["n"], m["nr"], m["nc"]), False, buffer_size=m["buffer"], dtype=m["dt"], tempdir=tmp)
                kept[k] = []
            return m

        def finish(k):
            if not kept[k]:
                return False
            done.append(live.pop(k))
            got = done[-1].evaluate()
            d = np.stack(kept.pop(k))
            want = np.full(d.shape[1:], np.nan)
            for y, x in np.ndindex(*want.shape):
                v = sorted(float(q) for q in d[:, y, x] if q == q)
                if v:
                    want[y, x] = (v[(len(v) - 1) // 2] + v[len(v) // 2]) / 2
            close(got, want, f"median of {len(d)} images, mixed with {len(live)} other stacks", rtol=0, atol=4 * np.finfo(d.dtype).eps * 1000)
            return True

        for t, (k, op) in enumerate(case["ops"]):
            m = add(k)
            mixed += len(live) > 1
            a = z[(np.arange(m["nr"] * m["nc"]) * 17 + 5 * t) % len(z)].reshape(m["nr"], m["nc"]).astype(m["dt"])
            if op == "done":
                medians += finish(k)
                continue
            ok = op == "add" and len(kept[k]) < m["n"]
            if op == "shape":
                a = np.vstack([a, a[:1]])
            if op == "type":
                a = a.astype("float64" if m["dt"] == "float32" else "float32")
            try:
                live[k].append(a.copy())
                took = True
            except (ValueError, IndexError):
                took = False
            check(took == ok, f"operation {t}: an image ({op}) of a stack with {len(kept[k])} of {m['n']} images was {'taken' if took else 'refused'}")
            if took:
                kept[k].append(a)
            refused += not took
        for k in list(live):
            medians += finish(k)
        check(live or not os.listdir(tmp), f"files are left behind after the last median: {os.listdir(tmp)}")
        del live
        import gc
        gc.collect()
        check(not os.listdir(tmp), f"files are left behind: {os.listdir(tmp)}")
    return bool(mixed and medians > 1), ["refused" if refused else "all taken", "mixed" if mixed else "alone"]


@st.composite
def limits(draw):
    unit = draw(st.sampled_from(["B", "KB", "MB", "kb", "mb", "GB", "Kb"]))
    want = draw(st.integers(20 * KB, 8 * KB * KB))
    scale = {"B": 1, "KB": KB, "MB": KB**2, "GB": KB**3}[unit.upper()]
    return {"limit": f"{want / scale:.9f} {unit}", "bytes": want, "use": draw(st.sampled_from([0.0, 0.3, 0.8, 1.2, 2.0])), "parts": draw(st.integers(1, 4)), "keep": draw(st.booleans()),
            "fails": draw(st.integers(0, 4)) == 0}


def run_limits(case):
    """The limit concerns the peak, not the sum of what was allocated in turns."""
    from stcal._testing.memory_threshold import MemoryThreshold, MemoryThresholdExceeded
    size = int(case["bytes"] * case["use"])
    each = size // case["parts"] if case["keep"] else size
    try:
        with MemoryThreshold(case["limit"]):
            held = []
            for _ in range(case["parts"]):
                held.append(bytearray(each))
                if not case["keep"]:
                    held.pop()
            del held
            if case["fails"]:
                raise KeyError("inside")
        res = "within"
    except MemoryThresholdExceeded:
        res = "exceeded"
    except KeyError:
        res = "inside"
    want = "exceeded" if case["use"] > 1 else "inside" if case["fails"] else "within"
    check(res == want, f"{each} bytes {case['parts']} times ({'together' if case['keep'] else 'in turns'}) with a limit of {case['limit']}: {res}, expected {want}")
    check(not tracemalloc.is_tracing(), "allocations are traced on after the end")
    return case["use"] > 0, [want]


COMPONENTS = [Component("memory", stacks, run_memory, quick=240, thorough=6000, shards=4),
              Component("histories", histories, run_histories, quick=1200, thorough=40000, shards=4),
              Component("limits", limits, run_limits, quick=400, thorough=10000, shards=2)]

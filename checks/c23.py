import os, tempfile
import numpy as np
from hypothesis import strategies as st
from vlib.core import Component, check, close
from vlib.gen import flagcube, table, uniform

RULE = ("random stacks, NaN patterns, buffer sizes from less than a row to more than the stack, adding orders, strides; against the median of the sorted "
        "valid values; non-trivial when several images and some NaN are stacked (or several disk sections used); distinct by content")


@st.composite
def stacks(draw):
    n, nr, nc = draw(st.integers(1, 9)), draw(st.integers(1, 12)), draw(st.integers(1, 6))
    dt = draw(st.sampled_from([np.float32, np.float64]))
    d = uniform(draw, (n, nr, nc), -100, 1000) if draw(st.booleans()) else table(draw, (n, nr, nc), [1.0, 2.0, 3.0, 5.0, -7.0, 0.0])
    d[flagcube(draw, d.shape, [1], draw(st.sampled_from([0, 40, 128, 240]))) == 1] = np.nan
    rest = draw(st.sampled_from(["finite", "finite", "inf"]))
    if rest == "inf":
        d[flagcube(draw, d.shape, [1], 20) == 1] = np.inf
    row = nc * np.dtype(dt).itemsize
    buf = draw(st.sampled_from([None, 0, 1, n * row, n * row * 2, n * row * 3 + 5, n * row * nr, n * row * nr * 10, row * nr, row * nr * 2, row * max(1, nr // 2)]))
    return {"d": d.astype(dt), "buffer": buf, "order": list(draw(st.permutations(range(n)))), "strided": draw(st.booleans())}


def reference(d):
    n, nr, nc = d.shape
    out = np.full((nr, nc), np.nan)
    for y in range(nr):
        for x in range(nc):
            v = sorted(float(k) for k in d[:, y, x] if k == k)
            if v:
                m = len(v) // 2
                out[y, x] = v[m] if len(v) % 2 else (v[m] if v[m - 1] == v[m] else (v[m - 1] + v[m]) / 2)
    return out


def run(case):
    from stcal.outlier_detection.median import MedianComputer, nanmedian3D
    d = case["d"]
    n = len(d)
    want = reference(d)
    fin = np.where(np.isfinite(d), np.abs(d), 0).max(initial=0)
    tol = 2 * np.finfo(d.dtype).eps * fin
    imgs = [np.repeat(d[k], 2, axis=1)[:, ::2] if case["strided"] else d[k].copy() for k in range(n)]
    cube = d.copy()
    keep = nanmedian3D(cube, overwrite_input=False)
    close(keep, want, "median of a cube", rtol=0, atol=tol)
    check(np.array_equal(cube, d, equal_nan=True), "the cube was modified though that was not allowed")
    close(nanmedian3D(cube), want, "median of a cube that may be overwritten", rtol=0, atol=tol)
    a = MedianComputer(d.shape, True, dtype=d.dtype)
    for k in case["order"]:
        a.append(imgs[k], k)
    close(a.evaluate(), want, "median in memory", rtol=0, atol=tol)
    with tempfile.TemporaryDirectory() as tmp:
        b = MedianComputer(d.shape, False, buffer_size=case["buffer"], dtype=d.dtype, tempdir=tmp)
        for k in case["order"]:
            b.append(imgs[k])
        got = b.evaluate()
        check(not os.listdir(tmp), f"files are left behind: {os.listdir(tmp)}")
    close(got, want, "median on disk", rtol=0, atol=tol)
    check(got.dtype == d.dtype, f"type {got.dtype} of the median on disk")
    for k in range(n):
        check(np.array_equal(imgs[k], d[k], equal_nan=True), "an input image was modified")
    rows = max(1, int((case["buffer"] or d[0].nbytes) / n // (d.shape[2] * d.itemsize)))
    sections = -(-d.shape[1] // min(rows, d.shape[1]))
    return bool(n > 1 and (np.isnan(d).any() or sections > 1)), [f"{'one' if sections == 1 else 'fewer' if sections < n else 'more'} sections", f"{d.dtype}"]


COMPONENTS = [Component("stack", stacks, run, quick=1600, thorough=50000, shards=8)]

import itertools
import numpy as np
from hypothesis import strategies as st
from vlib.core import Component, check, close, equal
from vlib.gen import flagcube, table, uniform
from vlib.wcsgen import build, frames, inside, p2w, pair, w2p

RULE = ("random arrays of 1 to 3 dimensions with NaN and odd kernels; weight maps with outliers, zeros and non-finite values; pairs of images with random "
        "relative shift, rotation, scale and bounding boxes; non-trivial when NaN are present, values are clipped, or part of the reference is sampled; distinct by content")


@st.composite
def cubes(draw):
    nd = draw(st.integers(1, 3))
    shape = tuple(draw(st.integers(1, 6)) for _ in range(nd))
    k = [draw(st.sampled_from([3, 1, 5, 7])) for _ in range(nd)]
    a = table(draw, shape, [1.0, 2.0, 3.5, -4.0, 10.0, 0.0])
    a[flagcube(draw, shape, [1], draw(st.sampled_from([0, 60, 200]))) == 1] = np.nan
    return {"a": a.astype(draw(st.sampled_from([np.float32, np.float64]))), "k": k}


def run_medfilt(case):
    from stcal.outlier_detection.utils import medfilt
    a, k = case["a"], case["k"]
    c = a.copy()
    got = medfilt(c, k)
    want = np.full(a.shape, np.nan)
    for i in np.ndindex(a.shape):
        v = []
        for off in itertools.product(*[range(-(n // 2), n // 2 + 1) for n in k]):
            j = tuple(p + o for p, o in zip(i, off))
            x = float(a[j]) if all(0 <= q < s for q, s in zip(j, a.shape)) else 0.0      # zeros beyond the edges
            if x == x:
                v.append(x)
        if v:
            v.sort()
            m = len(v) // 2
            want[i] = v[m] if len(v) % 2 else (v[m - 1] + v[m]) / 2
    close(got, want, "filtered array", rtol=1e-6)
    check(np.array_equal(c, a, equal_nan=True), "the input was modified")
    return bool(np.isnan(a).any() and max(k) > 1), [f"{a.ndim}-D"]


@st.composite
def weights(draw):
    n = draw(st.integers(1, 60))
    w = table(draw, (n,), [1.0, 1.0, 1.1, 0.9, 0.0, 1.05, 50.0, np.nan, np.inf, 0.95, 0.0, 1.2, 8.0]) if draw(st.booleans()) else uniform(draw, (n,), 0, 5)
    if draw(st.integers(0, 3)) == 0:        # many scales: takes many passes of clipping
        w = (1.0 + 0.3 * uniform(draw, (n,), 0, 1)) * np.where(uniform(draw, (n,), 0, 1) < 0.15, draw(st.sampled_from([3.0, 4.0, 6.0])) ** np.floor(uniform(draw, (n,), 0, 9)), 1.0)
    shape = (1, n) if draw(st.booleans()) else (n,)
    return {"w": w.reshape(shape).astype(draw(st.sampled_from([np.float32, np.float64]))), "maskpt": draw(st.sampled_from([0.7, 0.0, 1.0, 0.35]))}


def run_weight(case):
    from stcal.outlier_detection.utils import compute_weight_threshold
    c = case["w"].copy()
    got = compute_weight_threshold(c, case["maskpt"])
    v = case["w"].astype(np.float64).ravel()
    v = v[np.isfinite(v) & (v != 0)]
    n0 = len(v)
    for _ in range(5):
        if not len(v):
            break
        med, sd = np.median(v), np.std(v)
        dist = np.abs(v - med)
        if (np.abs(dist - 3 * sd) <= 1e-5 * (np.abs(v).max() + sd)).any() and sd > 0:
            return False, ["on the limit"]
        keep = dist <= 3 * sd if sd > 0 else np.ones(len(v), bool)
        if keep.all():
            break
        v = v[keep]
    check(np.array_equal(c, case["w"], equal_nan=True), "the weights were modified")
    if not len(v):
        check(np.isnan(got), f"threshold {got} without valid weights")
        return False, ["no weights"]
    want = case["maskpt"] * v.mean()
    check(abs(got - want) <= 1e-5 * abs(want) + 1e-12, f"threshold {got}, expected {want}")
    return len(v) < n0, ["clipped" if len(v) < n0 else "not clipped"]


@st.composite
def blots(draw):
    step, order = draw(st.sampled_from([(None, 1), (1, 3), (1, 1), (2, 1), (3, 3), (2, 3), (5, 3), (4, 1), (50, 3)]))      # None: not given
    n = 26 if step not in (None, 1) else 12
    shape = (draw(st.integers(1, n)), draw(st.integers(1, n)))
    ref = (draw(st.integers(2, n + 2)), draw(st.integers(2, n + 2)))
    bend = step in (None, 1) or order == 3        # the sparse map is exact: linear, or cubic with a slight quadratic distortion
    p = draw(frames(shape, bend=bend))
    q = pair(draw, p, ref, dither=5.0, scale=p["scale"] * draw(st.sampled_from([1.0, 0.5, 2.0])), bend=bend)
    d = uniform(draw, ref, -10.0, 100.0)
    d[flagcube(draw, ref, [1], draw(st.sampled_from([0, 20]))) == 1] = np.nan
    return {"p": p, "q": q, "d": d.astype(np.float32), "fill": draw(st.sampled_from([0.0, -99.0, np.nan])), "step": step, "order": order}


def run_blot(case):
    from stcal.outlier_detection.utils import gwcs_blot
    p, q, d = case["p"], case["q"], case["d"]
    c = d.copy()
    wp, wq = build(p), build(q)
    kw = {} if case["step"] is None else {"pixmap_stepsize": case["step"], "pixmap_order": case["order"]}
    got = gwcs_blot(c, wq, tuple(p["shape"]), wp, fillval=case["fill"], **kw)
    check(np.array_equal(c, d, equal_nan=True), "the reference image was modified")
    yy, xx = np.indices(p["shape"]).astype(float)
    valid, edge = inside(p["bbox"], xx, yy)
    X, Y = w2p(q, p2w(p, xx, yy))
    ny, nx = d.shape
    want = np.full(p["shape"], case["fill"], float)
    check_ = ~edge
    n = 0
    for i in np.ndindex(xx.shape):
        x, y = X[i], Y[i]
        if not valid[i] or x < -1e-4 or y < -1e-4 or x >= nx + 1e-4 or y >= ny + 1e-4:
            continue                    # fill value
        if not (1e-4 < x < nx - 1 - 1e-4 and 1e-4 < y < ny - 1 - 1e-4):
            check_[i] = False           # the rim of the reference image: fill value or its nearest sample
            continue
        x0, y0 = int(np.floor(x)), int(np.floor(y))
        fx, fy = x - x0, y - y0
        if min(fx, fy, 1 - fx, 1 - fy) < 1e-4 and np.isnan(d[max(0, y0 - 1):y0 + 3, max(0, x0 - 1):x0 + 3]).any():
            check_[i] = False
            continue
        q4 = d[y0:y0 + 2, x0:x0 + 2].astype(float)
        want[i] = q4[0, 0] * (1 - fx) * (1 - fy) + q4[0, 1] * fx * (1 - fy) + q4[1, 0] * (1 - fx) * fy + q4[1, 1] * fx * fy
        n += 1
    close(np.asarray(got), want, "blotted image", rtol=0, atol=0.01, mask=check_)
    return n > 0, ["bounding box" if p["bbox"] else "no bounding box", "all inside" if n == xx.size else "partly outside", f"step {case['step']}"]


COMPONENTS = [Component("medfilt", cubes, run_medfilt, quick=1200, thorough=30000, shards=4),
              Component("weight-threshold", weights, run_weight, quick=1500, thorough=40000, shards=4),
              Component("blot", blots, run_blot, quick=600, thorough=15000, shards=6)]

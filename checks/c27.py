import numpy as np
from hypothesis import strategies as st
from vlib.core import Component, check, close, equal
from vlib.wcsgen import build, frames, inside, p2w, pair, radec, w2p

RULE = ("random pairs of tangent-plane images (any sky position, rotation, parity, scale, distortion, bounding boxes, image shapes), box handling and step "
        "sizes, against independent vector algebra; non-trivial when the map has both valid and invalid pixels, or is interpolated; distinct by content")


@st.composite
def pairs(draw, step=False):
    big = step
    shape = (draw(st.integers(1, 70 if big else 14)), draw(st.integers(1, 70 if big else 14)))
    p = draw(frames(shape))
    q = pair(draw, p, (draw(st.integers(1, 40)), draw(st.integers(1, 40))), dither=6.0, scale=p["scale"] * draw(st.sampled_from([1.0, 0.5, 2.0])))
    how = draw(st.sampled_from(["shape", "array_shape", "other shape", "bbox"]))
    if how == "bbox" and p["bbox"] is None:
        how = "shape"
    p["array_shape"] = how == "array_shape"
    ask = None
    if how == "shape":
        ask = shape
    elif how == "other shape":
        ask = (draw(st.integers(1, 70 if big else 14)), draw(st.integers(1, 70 if big else 14)))
        p["array_shape"] = draw(st.booleans())
    return {"p": p, "q": q, "disable": draw(st.sampled_from(["to", "to", "from", "both", "none"])), "how": how, "shape": ask,
            "step": draw(st.sampled_from([2, 5, 10, 3, 40, 1])) if step else 1, "order": draw(st.sampled_from([1, 3])) if step else 1}


def boxes(w):
    b = w.bounding_box
    return None if b is None else tuple(tuple(float(v) for v in i) for i in b.bounding_box(order="F"))


def full_shape(case):
    if case["shape"] is not None:
        return tuple(case["shape"])
    if case["how"] == "array_shape":
        return tuple(case["p"]["shape"])
    (x1, x2), (y1, y2) = case["p"]["bbox"]
    return int(np.ceil(y2 + 0.5)), int(np.ceil(x2 + 0.5))


def exact(case):
    shape = full_shape(case)
    yy, xx = np.indices(shape).astype(float)
    X, Y = w2p(case["q"], p2w(case["p"], xx, yy))
    edge = np.zeros(shape, bool)
    bad = np.zeros(shape, bool)
    if case["disable"] in ("to", "none"):
        ok, e = inside(case["p"]["bbox"], xx, yy)
        bad |= ~ok
        edge |= e
    if case["disable"] in ("from", "none"):
        ok, e = inside(case["q"]["bbox"], X, Y)
        bad |= ~ok
        edge |= e
        if case["q"]["bbox"] is not None:
            # gwcs also rejects sky positions by a coarse range test of its own, which is not judged here
            v = p2w(case["p"], xx, yy)
            lib = build(case["q"]).world_to_pixel_values(*radec(v))
            edge |= (np.isnan(lib[0]) | np.isnan(lib[1])) & ~bad
    return X, Y, bad, edge


def run(case):
    from stcal.resample.utils import calc_pixmap
    wp, wq = build(case["p"]), build(case["q"])
    before = boxes(wp), boxes(wq)
    m = calc_pixmap(wp, wq, shape=case["shape"], disable_bbox=case["disable"], stepsize=case["step"], order=case["order"])
    check((boxes(wp), boxes(wq)) == before, "a bounding box changed")
    X, Y, bad, edge = exact(case)
    check(m.shape == X.shape + (2,), f"shape {m.shape}")
    m = np.where(np.isnan(m).any(axis=2, keepdims=True), np.nan, m)     # a position with one undefined coordinate is undefined
    want = np.dstack([np.where(bad, np.nan, X), np.where(bad, np.nan, Y)])
    tol = 1e-4
    if case["step"] > 1:        # linear interpolation error from the curvature of the exact map
        h = case["step"] * 1.2 + 1
        curv = 0.0
        for a in (X, Y):
            for ax in (0, 1):
                if a.shape[ax] > 2:
                    curv = max(curv, np.abs(np.diff(a, 2, axis=ax)).max())
            if min(a.shape) > 1:
                curv = max(curv, np.abs(np.diff(np.diff(a, axis=0), axis=1)).max())
        tol += curv * h * h / 2
    close(m, want, "pixel map", rtol=0, atol=tol, mask=~np.dstack([edge, edge]))
    return bool(bad.any() and not bad.all()) or case["step"] > 1, [case["disable"], case["how"], f"step {case['step']}", "narrow" if min(full_shape(case)) < 4 else "wide"]


COMPONENTS = [Component("exact", lambda: pairs(), run, quick=900, thorough=25000, shards=6),
              Component("stepped", lambda: pairs(step=True), run, quick=700, thorough=20000, shards=6)]

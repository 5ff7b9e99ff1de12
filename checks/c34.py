import numpy as np
from hypothesis import strategies as st
from vlib.core import Component, check, fail
from vlib.wcsgen import build, frames, p2w, radec, vec, w2p

RULE = ("random sets of footprints (rectangles, regular and L-shaped polygons with any vertex count; apart, touching, aligned, nested, duplicated, displaced by "
        "fractions of a pixel; arrays or strings; clipped or not) anywhere on the sky, against point-in-polygon tests of every footprint; "
        "non-trivial when two or more footprints are given; distinct by content")
TOL = 0.25


@st.composite
def sets(draw):
    f = lambda lo, hi: lo + draw(st.integers(0, 1 << 16)) / float(1 << 16) * (hi - lo)
    p = draw(frames((100, 100), bend=False, scale=draw(st.sampled_from([1e-5, 3e-5]))))
    p["bbox"] = None
    size = draw(st.sampled_from([5.0, 40.0, 400.0, 2048.0]))
    grid = draw(st.sampled_from([True, True, False]))
    polys, base = [], None
    for _ in range(draw(st.integers(1, 8))):
        how = draw(st.sampled_from(["new", "new", "shift", "shift", "jitter", "nested", "same"])) if polys else "new"
        if how == "new":
            kind = draw(st.sampled_from(["rect", "rect", "rect", "ell", "you", "ngon", "bulge"]))
            w, h = size * draw(st.sampled_from([1, 1, 0.5, 2])), size * draw(st.sampled_from([1, 1, 0.5, 0.25]))
            if kind == "rect":
                v = [(0, 0), (w, 0), (w, h), (0, h)]
            elif kind == "ell":
                v = [(0, 0), (w, 0), (w, h / 3), (w / 3, h / 3), (w / 3, h), (0, h)]
            elif kind == "you":
                v = [(0, 0), (w, 0), (w, h), (0.7 * w, h), (0.7 * w, 0.2 * h), (0.3 * w, 0.2 * h), (0.3 * w, h), (0, h)]
            elif kind == "bulge":       # the outline of a distorted detector: slightly curved edges
                q, b = draw(st.integers(2, 5)), draw(st.sampled_from([1e-3, 3e-3, 2e-2, -3e-3])) * max(w, h)
                v = []
                for k, (x, y) in enumerate([(0, 0), (w, 0), (w, h), (0, h)]):
                    ex, ey = [(w, 0), (0, h), (-w, 0), (0, -h)][k]
                    nx, ny = [(0, -1), (1, 0), (0, 1), (-1, 0)][k]
                    v += [(x + t * ex + 4 * b * t * (1 - t) * nx, y + t * ey + 4 * b * t * (1 - t) * ny) for t in np.arange(q) / q]
            else:
                n = draw(st.integers(3, 12))
                v = [(w * np.cos(2 * np.pi * k / n), h * np.sin(2 * np.pi * k / n)) for k in range(n)]
            a = np.deg2rad(draw(st.sampled_from([0, 0, 0, 90, 45, 3, 123])))
            v = np.array(v, float) @ np.array([[np.cos(a), np.sin(a)], [-np.sin(a), np.cos(a)]])
            at = [draw(st.sampled_from([0, 0.5, 1, 1.5, 3])) * size, draw(st.sampled_from([0, 0.5, 1, 2])) * size] if grid else [f(0, 3 * size), f(0, 3 * size)]
            v = v + at
        else:
            v = polys[draw(st.integers(0, len(polys) - 1))].copy()
            if how == "shift":
                v = v + np.array(draw(st.sampled_from([(1, 0), (0, 1), (0.5, 0.5), (0.25, 0), (2, 0), (-1, 1)]))) * size
            elif how == "jitter":
                v = v + np.array(draw(st.sampled_from([(0.02, 0), (0, 0.03), (0.02, 0.03), (0.04, 0), (1e-4, 1e-4), (-0.02, 0), (0.6, 0.3), (0, -0.045)])))
            elif how == "nested":
                c = v.mean(axis=0)
                v = c + (v - c) * draw(st.sampled_from([0.5, 0.9, 1.5]))
            if draw(st.booleans()):
                v = v[::-1].copy()
        polys.append(np.roll(v, draw(st.integers(0, 3)), axis=0))
    clip = None
    if draw(st.booleans()):
        x, y = draw(st.sampled_from([0, 0.4, 1, -5, 1.5])) * size, draw(st.sampled_from([0, 0.5, 1, 0.21])) * size
        w, h = draw(st.sampled_from([1, 3, 0.5, 0.2])) * size, draw(st.sampled_from([1, 3, 0.5])) * size
        clip = np.array([(x, y), (x + w, y), (x + w, y + h), (x, y + h)])
        if not grid:
            clip = clip + 0.137 * size
    return {"p": p, "polys": polys, "clip": clip, "text": draw(st.lists(st.booleans(), min_size=8, max_size=8)),
            "probes": [[f(-1, 5), f(-1, 5)] for _ in range(6)]}


def within(poly, x, y):
    """Even-odd rule."""
    ok = np.zeros(x.shape, bool)
    x0, y0 = poly[-1]
    for x1, y1 in poly:
        if y0 != y1:
            cross = ((y0 > y) != (y1 > y)) & (x < (x1 - x0) * (y - y0) / (y1 - y0) + x0)
            ok ^= cross
        x0, y0 = x1, y1
    return ok


def distance(poly, x, y):
    best = np.full(x.shape, np.inf)
    x0, y0 = poly[-1]
    for x1, y1 in poly:
        dx, dy = x1 - x0, y1 - y0
        t = np.clip(((x - x0) * dx + (y - y0) * dy) / max(dx * dx + dy * dy, 1e-300), 0, 1)
        best = np.minimum(best, np.hypot(x - x0 - t * dx, y - y0 - t * dy))
        x0, y0 = x1, y1
    return best


def probes(case):
    polys = case["polys"] + ([case["clip"]] if case["clip"] is not None else [])
    allv = np.vstack(polys)
    lo, hi = allv.min(axis=0), allv.max(axis=0)
    g = np.linspace(-0.05, 1.05, 33)
    pts = [np.array([(lo[0] + a * (hi[0] - lo[0]), lo[1] + b * (hi[1] - lo[1])) for a in g for b in g])]
    for v in polys:        # just inside and outside the corners and the edges
        c = v.mean(axis=0)
        for s in (1.0, -1.0):
            pts.append(v + s * (v - c) / np.maximum(np.linalg.norm(v - c, axis=1, keepdims=True), 1e-9) * 0.5)
        nxt = np.roll(v, -1, axis=0)
        e = nxt - v
        nrm = np.stack([-e[:, 1], e[:, 0]], axis=1) / np.linalg.norm(e, axis=1, keepdims=True)
        for t in (0.08, 0.5, 0.92):
            for s in (0.3, -0.3):
                pts.append(v + t * e + s * nrm)
    pts.append(lo + np.array(case["probes"]) / 4 * (hi - lo))
    return np.vstack(pts).T


def verify(case, out, clip, what):
    import shapely
    x, y = probes(case)
    inside = np.zeros(x.shape, bool)
    edge = np.zeros(x.shape, bool)
    for v in case["polys"]:
        inside |= within(v, x, y)
        edge |= distance(v, x, y) < TOL
    # POLYGON regions cannot express holes: points in a hole of the union are left open
    for grow in (0.0, 1e-4, TOL / 2):      # footprints that just touch may or may not close a hole
        union = shapely.union_all([shapely.Polygon(v).buffer(grow, join_style="mitre") if grow else shapely.Polygon(v) for v in case["polys"]])
        for part in getattr(union, "geoms", [union]):
            for ring in part.interiors:
                r = np.array(ring.coords)[:-1]
                edge |= within(r, x, y)
    if clip is not None:
        inside &= within(clip, x, y)
        edge |= distance(clip, x, y) < TOL
    got = np.zeros(x.shape, bool)
    for v in out:
        got |= within(v, x, y)
    bad = (got != inside) & ~edge
    if bad.any():
        k = int(np.argmax(bad))
        fail(f"{what}: the point ({x[k]:.3f}, {y[k]:.3f}) px is {'inside' if got[k] else 'outside'} the combined region {[np.round(v, 3).tolist() for v in out]}, "
             f"expected {'inside' if inside[k] else 'outside'}")


def run(case):
    import shapely
    from stcal.alignment.resample_utils import combine_footprints, combine_sregions
    p = case["p"]
    ox, oy = 100.0, 60.0
    world = []
    for v, text in zip(case["polys"], case["text"]):
        ra, dec = radec(p2w(p, v[:, 0], v[:, 1]))
        if text:
            world.append("POLYGON ICRS  " + " ".join(f"{a:.9f} {d:.9f}" for a, d in zip(ra, dec)))
        else:
            world.append(np.stack([ra, dec], axis=1))
    clip = None
    if case["clip"] is not None:
        clip = np.stack(radec(p2w(p, case["clip"][:, 0], case["clip"][:, 1])), axis=1)
    keep = [w if isinstance(w, str) else w.copy() for w in world]
    out = combine_footprints([v.copy() for v in case["polys"]])
    verify(case, [np.asarray(v) for v in out], None, "footprints in pixels")
    for v in out:
        a, b = v - np.roll(v, 1, axis=0), np.roll(v, -1, axis=0) - v
        turn = np.arctan2(a[:, 0] * b[:, 1] - a[:, 1] * b[:, 0], (a * b).sum(axis=1))
        near = np.abs(a).max(axis=1) < 0.049
        check(not near.any(), lambda: f"vertex {v[np.argmax(near)]} of the outline repeats its predecessor {v[np.argmax(near) - 1]}")
        flat = np.abs(turn) < 1e-9
        check(not flat.any(), lambda: f"vertex {v[np.argmax(flat)]} of the outline lies on the edge between its neighbours")
    hole_free = shapely.union_all([shapely.Polygon(v) for v in case["polys"]])
    common = None
    if clip is not None:
        c = shapely.Polygon(case["clip"])
        common = "yes" if hole_free.buffer(-2 * TOL).intersects(c.buffer(-2 * TOL)) else "no" if not hole_free.buffer(TOL).intersects(c) else "open"
    det2world = build(p).forward_transform
    try:
        text = combine_sregions(world, det2world, intersect_footprint=clip)
    except ValueError as e:
        check(common in ("no", "open") and "overlap" in str(e), f"ValueError {e}, though there is an overlap")
        return len(world) > 1, ["no overlap"]
    if common == "no":
        # a hole of the union that contains the image counts as covered by the outline
        grown = hole_free.buffer(TOL)
        filled = shapely.union_all([shapely.Polygon(g.exterior) for g in getattr(grown, "geoms", [grown])])
        check(filled.buffer(TOL).intersects(shapely.Polygon(case["clip"])), f"a region {text} though nothing overlaps the image")
        return len(world) > 1, ["hole"]
    check(all(a is b or np.array_equal(a, b) for a, b in zip(world, keep)), "a footprint given was modified")
    parts = [t.split() for t in text.split("POLYGON")[1:]]
    check(text.startswith("POLYGON") and parts and all(t[0] == "ICRS" and len(t) % 2 == 1 for t in parts), f"malformed region {text!r}")
    regions = []
    for t in parts:
        v = np.array(t[1:], float).reshape(-1, 2)
        regions.append(np.stack(w2p(p, vec(v[:, 0], v[:, 1])), axis=1))
    verify(case, regions, case["clip"], "region string")
    return len(world) > 1, ["clipped" if clip is not None else "whole", f"{min(len(parts), 3)} parts", "mixed vertices" if len({len(v) for v in case["polys"]}) > 1 else "same vertices"]


COMPONENTS = [Component("union", sets, run, quick=1200, thorough=40000, shards=6)]

import numpy as np
from hypothesis import strategies as st
from vlib.core import Component, check, fail
from vlib.wcsgen import build, frames, p2w, radec, vec, w2p

RULE = ("random reference images and sets of footprints anywhere on the sky (across RA 0, at the poles), arrays or strings, any combination of requested scale, "
        "scale ratio, rotation, shape, reference pixel and position, or a whole transform; against independent tangent-plane algebra; "
        "non-trivial when some geometry is requested or several footprints are given; distinct by content")


@st.composite
def requests(draw):
    f = lambda lo, hi: lo + draw(st.integers(0, 1 << 16)) / float(1 << 16) * (hi - lo)
    ny, nx = draw(st.integers(8, 60)), draw(st.integers(8, 60))
    ref = draw(frames((ny, nx), scale=draw(st.sampled_from([3e-5, 1e-5, 1e-3]))))
    ref["bbox"] = [[-0.5, nx - 0.5], [-0.5, ny - 0.5]]
    ang = st.sampled_from([0.0, 0.0, 30.0, 90.0, -135.0, 180.0, 271.3, 359.0, 12.34])
    info = {"v3yangle": draw(ang), "roll_ref": draw(ang), "vparity": draw(st.sampled_from([-1, -1, 1]))}
    x, y = f(0, nx - 1), f(0, ny - 1)
    ra, dec = radec(p2w(ref, x, y))
    info["ra_ref"], info["dec_ref"] = float(ra), float(dec)
    feet = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 3, 4, 5, 9, 14]))):
        q = dict(ref)
        dx, dy = f(-60, 60), f(-60, 60)
        corners = [(-0.5, -0.5), (-0.5, ny - 0.5), (nx - 0.5, ny - 0.5), (nx - 0.5, -0.5)]
        if draw(st.integers(0, 3)) == 0:
            corners.insert(2, (nx / 2, ny + 3.0))
        feet.append([(a + dx, b + dy) for a, b in corners])
    req = {}
    if draw(st.booleans()):
        req["pscale"] = ref["scale"] * draw(st.sampled_from([0.5, 1.0, 2.2]))
    if draw(st.booleans()):
        req["pscale_ratio"] = draw(st.sampled_from([0.5, 1.0, 1.7]))
    if draw(st.booleans()):
        req["rotation"] = draw(st.sampled_from([0.0, 0.0, 45.0, -30.0, 180.0, 275.5]))
    if draw(st.booleans()):
        req["crval"] = [float(k) for k in radec(p2w(ref, f(-30, nx + 30), f(-30, ny + 30)))]
    if draw(st.booleans()):
        req["crpix"] = draw(st.sampled_from([[0.0, 0.0], [f(-20, 200), f(-20, 200)], [25.0, 31.5]]))
    if draw(st.booleans()):
        req["shape"] = [draw(st.integers(5, 400)), draw(st.sampled_from([draw(st.integers(5, 400))] * 12 + [1, 2]))][:: draw(st.sampled_from([1, -1]))]
    own = None
    if draw(st.integers(0, 5)) == 0:
        own = {"scale": ref["scale"] * draw(st.sampled_from([0.7, 1.0, 3.0])), "rot": draw(ang), "flip": draw(st.sampled_from([-1, 1])),
               "crpix": [f(-10, 30), f(-10, 30)], "bend": 0.0, "bbox": None, "shape": [9, 9], "array_shape": False}
    return {"ref": ref, "info": info, "feet": feet, "text": draw(st.booleans()), "req": req, "own": own}


def run(case):
    from stcal.alignment import wcs_from_sregions
    ref, info, req = case["ref"], case["info"], case["req"]
    feet = []
    for f in case["feet"]:
        v = np.array(f)
        feet.append(np.stack(radec(p2w(ref, v[:, 0], v[:, 1])), axis=1))
    given = feet
    if case["text"]:
        given = ["POLYGON ICRS  " + " ".join(f"{k:.9f}" for k in f.ravel()) for f in feet]
    vecs = [vec(f[:, 0], f[:, 1]) for f in feet]
    # reference position
    if "crval" in req:
        crval = list(req["crval"])
    else:
        a = np.vstack(vecs)
        m = (a.max(axis=0) + a.min(axis=0)) / 2
        crval = [float(k) for k in radec(m)]
    # orientation: position angle of the y axis, parity of the x axis
    angle = req["rotation"] if "rotation" in req else info["roll_ref"] - info["vparity"] * info["v3yangle"]
    if "pscale" in req:
        scale = req["pscale"]
    else:
        x, y = w2p(ref, vec(info["ra_ref"], info["dec_ref"]))
        u = p2w(ref, np.array([x, x + 1, x]), np.array([y, y, y + 1]))
        scale = float(np.sqrt(np.prod([2 * np.arcsin(np.linalg.norm(u[0] - u[k]) / 2) for k in (1, 2)]))) * 180 / np.pi * req.get("pscale_ratio", 1.0)
    model = {"crval": crval, "crpix": [0.0, 0.0], "scale": scale, "rot": -angle, "flip": info["vparity"], "bend": 0.0}
    kw = {k: tuple(v) if isinstance(v, list) else v for k, v in req.items()}
    if case["own"] is not None:
        model = dict(case["own"], crval=crval)
        kw["transform"] = build(model).forward_transform
    # the extent in unshifted output pixels
    ext = [w2p(model, v) for v in vecs]
    X, Y = np.concatenate([e[0] for e in ext]), np.concatenate([e[1] for e in ext])
    nat = [float(k) for k in w2p(model, vec(*crval))]
    if "crpix" in req:
        off = [req["crpix"][0] - nat[0], req["crpix"][1] - nat[1]]
    else:
        off = [-X.min(), -Y.min()]
    hi = [X.max() + off[0], Y.max() + off[1]]
    lo = [X.min() + off[0], Y.min() + off[1]]
    keep = [f if isinstance(f, str) else f.copy() for f in given]
    try:
        w = wcs_from_sregions(list(given), ref_wcs=build(ref), ref_wcsinfo=dict(info), **kw)
    except ValueError as e:
        check("too small" in str(e) and (min(req["shape"]) < 2 if "shape" in req else min(hi) < 2.6), f"ValueError {e.args[0]}")
        return True, ["too small"]
    check(all(a is b or np.array_equal(a, b) for a, b in zip(given, keep)), "a footprint given was modified")
    check(min(w.array_shape) >= 2, f"an image of {w.array_shape}")
    # geometry, by comparison with the plain tangent-plane algebra
    final = dict(model, crpix=[model["crpix"][0] + off[0], model["crpix"][1] + off[1]])
    gx = np.array([lo[0], hi[0], (lo[0] + hi[0]) / 2, lo[0], hi[0], off[0] + nat[0]])
    gy = np.array([lo[1], hi[1], (lo[1] + hi[1]) / 2, hi[1], lo[1], off[1] + nat[1]])
    want = p2w(final, gx, gy)
    ra, dec = w(gx, gy, with_bounding_box=False)
    err = float(np.abs(vec(ra, dec) - want).max()) / np.deg2rad(model["scale"])
    span = max(hi[0] - lo[0], hi[1] - lo[1]) + abs(off[0] + nat[0]) + abs(off[1] + nat[1])
    tol = 1e-3 + 1e-5 * span        # coordinates rounded to 1e-9 deg; scale measured from two neighbouring positions
    check(err < tol, f"positions are off by {err:.4g} px: crval {crval}, scale {model['scale']}, position angle {angle}, parity {model['flip']}, offsets {off}")
    bx, by = w.invert(*radec(want), with_bounding_box=False)
    err = float(max(np.abs(bx - gx).max(), np.abs(by - gy).max()))
    check(err < 2 * tol, f"sky to pixel is off by {err:.4g} px")
    # extent
    (x1, x2), (y1, y2) = w.bounding_box.bounding_box(order="F")
    nx, ny = w.pixel_shape
    check(tuple(w.array_shape) == (ny, nx), f"array shape {w.array_shape}, pixel shape {w.pixel_shape}")
    e = 1 + tol
    if "shape" in req:
        check([ny, nx] == list(req["shape"]), f"shape {(ny, nx)} instead of the requested {req['shape']}")
        for a, b, l, h, n, ax in ((x1, x2, lo[0], hi[0], nx, "x"), (y1, y2, lo[1], hi[1], ny, "y")):
            if h < 1 or l > n - 1:
                continue        # the requested image lies off the footprints
            check(abs(a - (max(0, l) - 0.5)) <= e and abs(b - min(h, n - 0.5)) <= e, f"bounding box {ax} {(a, b)} with the footprints in {(l, h)} and {n} pixels")
            check(a >= -0.5 and b <= n - 0.5, f"bounding box {ax} {(a, b)} beyond {n} pixels")
    else:
        check((x1, y1, x2, y2) == (-0.5, -0.5, nx - 0.5, ny - 0.5), f"bounding box {(x1, x2), (y1, y2)} of an image of {(ny, nx)}")
        check(abs(nx - hi[0]) <= e and abs(ny - hi[1]) <= e, f"shape {(ny, nx)}, though the footprints extend to {hi}")
        if "crpix" not in req:
            for v in vecs:
                px, py = w.invert(*radec(v), with_bounding_box=False)
                check(px.min() >= -e and py.min() >= -e and px.max() <= nx - 0.5 + e and py.max() <= ny - 0.5 + e, f"vertex at {px}, {py} outside an image of {(ny, nx)}")
    return bool(req) or len(feet) > 1, sorted(req) + (["transform"] if case["own"] else []) + ["pole" if abs(crval[1]) > 85 else "RA 0" if abs((crval[0] + 180) % 360 - 180) < 0.1 else "elsewhere"]


COMPONENTS = [Component("frames", requests, run, quick=700, thorough=25000, shards=6)]

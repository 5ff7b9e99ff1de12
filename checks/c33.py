import numpy as np
from hypothesis import strategies as st
from vlib.core import Component, check, close, fail
from vlib.wcsgen import build, frames, p2w, radec, vec, w2p

RULE = ("random image transforms (any position, scale, rotation, parity, distortion, bounding box, shape), lists of them and their orders; against independent "
        "vector algebra; non-trivial when the image has a bounding box or several images are combined; distinct by content")


@st.composite
def images(draw):
    n = draw(st.sampled_from([1, 1, 2, 3, 5]))
    out = []
    crval = None
    for _ in range(n):
        p = draw(frames((draw(st.integers(2, 60)), draw(st.integers(2, 60))), crval=crval, scale=draw(st.sampled_from([1e-5, 3e-5, 1e-3]))))
        crval = p["crval"]
        out.append(p)
    f = lambda lo, hi: lo + draw(st.integers(0, 1 << 16)) / float(1 << 16) * (hi - lo)
    return {"images": out, "order": list(draw(st.permutations(range(n)))), "center": draw(st.booleans()), "shape": [draw(st.integers(1, 50)), draw(st.integers(1, 50))],
            "planes": draw(st.sampled_from([[], [3], [2, 7]])), "at": [f(-0.2, 1.2), f(-0.2, 1.2)], "ratio": draw(st.sampled_from([None, None, 0.5, 2.0])),
            "box": draw(st.sampled_from([None, [[0.0, 3.0], [1.0, 7.0]], [[-0.5, 10.5], [-0.5, 4.5]]])), "nan": draw(st.integers(0, 7)), "wrap": draw(st.integers(0, 3)) == 0,
            "angles": [f(-7, 7), f(-7, 7)], "vparity": draw(st.sampled_from([1, -1, 1, -1, 0, 2, -3]))}


def corners(b):
    (x1, x2), (y1, y2) = b
    return np.array([x1, x1, x2, x2]), np.array([y1, y2, y2, y1])


def parse(s):
    check(isinstance(s, str) and s.split()[:2] == ["POLYGON", "ICRS"], f"region {s!r}")
    v = np.array(s.split()[2:], float)
    check(v.size % 2 == 0, f"region {s!r}")
    return v.reshape(-1, 2)


def run(case):
    from stcal import alignment as A
    from stcal.alignment.util import compute_fiducial, compute_s_region_imaging, compute_s_region_keyword, compute_scale, wcs_bbox_from_shape
    shape = tuple(case["planes"] + case["shape"])
    box = wcs_bbox_from_shape(shape)
    check(tuple(map(tuple, box)) == ((-0.5, shape[-1] - 0.5), (-0.5, shape[-2] - 0.5)), f"bounding box {box} of shape {shape}")
    # region of every image
    feet = []
    for p in case["images"]:
        w = build(p)
        if case["wrap"]:        # longitudes between -180 and 180 degrees
            from gwcs import WCS
            from gwcs.geometry import CartesianToSpherical, SphericalToCartesian
            box = w.bounding_box
            w = WCS([(w.input_frame, w.forward_transform | SphericalToCartesian(wrap_lon_at=180) | CartesianToSpherical(wrap_lon_at=180)), (w.output_frame, None)])
            if box is not None:
                w.bounding_box = tuple(map(tuple, p["bbox"]))
        b = p["bbox"]
        if b is None:
            try:
                compute_s_region_imaging(w, center=case["center"])
                fail("a region without bounding box or shape")
            except ValueError:
                pass
            b = [[-0.5, shape[-1] - 0.5], [-0.5, shape[-2] - 0.5]]
            s = compute_s_region_imaging(w, shape=shape, center=case["center"])
        else:
            s = compute_s_region_imaging(w, shape=shape if case["nan"] % 2 else None, center=case["center"])
        got = parse(s)
        x, y = corners(b)
        check(got.shape == (4, 2), f"{len(got)} vertices")
        check((got[:, 0] >= 0).all() and (got[:, 0] <= 360).all(), f"right ascensions {got[:, 0]}")
        px, py = w2p(p, vec(got[:, 0], got[:, 1]))
        off = max(np.abs(px - x).max(), np.abs(py - y).max())
        tol = 1e-8 / p["scale"] + 1e-6
        check(off < (0.5 if case["center"] else 0) + tol, f"vertices at {px}, {py} px, expected {x}, {y}{' within half a pixel' if case['center'] else ''}")
        feet.append((p, b, got))
        back = A.sregion_to_footprint(s)
        close(back, got, "parsed region", rtol=0, atol=0)
    # any number of vertices
    many = np.vstack([f for _, _, f in feet])
    text = "POLYGON ICRS  " + " ".join(f"{a:.9f} {d:.9f}" for a, d in many)
    close(A.sregion_to_footprint(text), np.array([[float(f"{k:.9f}") for k in r] for r in many]), "parsed long region", rtol=0, atol=0)
    key = many[:4].copy()
    if case["nan"] < 4:
        key[case["nan"] % 4, case["nan"] // 4] = np.nan
        check(compute_s_region_keyword(key) is None, "a region with undefined positions")
    else:
        close(parse(compute_s_region_keyword(key)), key, "region keyword", rtol=0, atol=6e-10)
    # fiducial
    ws, boxed = [], []
    for p, b, _ in feet:
        q = dict(p, bbox=b)
        ws.append(build(q))
        boxed.append(case["box"] or b)
    V = []
    for (p, _, _), b in zip(feet, boxed):
        x, y = corners(b)
        V.append(p2w(p, x, y))
    V = np.vstack(V)
    m = (V.max(axis=0) + V.min(axis=0)) / 2
    m /= np.linalg.norm(m)
    kw = {"bounding_box": tuple(map(tuple, case["box"]))} if case["box"] else {}
    fid = np.asarray(compute_fiducial(ws, **kw))
    again = np.asarray(compute_fiducial([ws[k] for k in case["order"]], **kw))
    check(fid.shape == (2,) and 0 <= fid[0] <= 360, f"fiducial {fid}")
    err = np.abs(vec(*fid) - m).max()
    check(err < 2e-13, f"fiducial {fid} is off by {np.rad2deg(err):.3g} deg from {radec(m)}")
    check(np.array_equal(fid, again), f"fiducial {again} in another order, {fid} before")
    # scale
    p = case["images"][0]
    ny, nx = p["shape"]
    x, y = case["at"][0] * nx, case["at"][1] * ny
    u = p2w(p, np.array([x, x + 1, x]), np.array([y, y, y + 1]))
    want = np.rad2deg(np.sqrt(np.prod([2 * np.arcsin(np.linalg.norm(u[0] - u[k]) / 2) for k in (1, 2)]))) * (case["ratio"] or 1.0)
    got = compute_scale(ws[0], tuple(float(k) for k in radec(u[0])), pscale_ratio=case["ratio"])
    check(abs(got - want) < want * (1e-9 / p["scale"] * 1e-3 + 1e-6), f"scale {got!r}, expected {want!r}")
    # rotation
    a, b = case["angles"]
    if abs(case["vparity"]) != 1:
        try:
            A.calc_rotation_matrix(a, b, vparity=case["vparity"])
            fail(f"parity {case['vparity']} accepted")
        except ValueError:
            pass
    else:
        M = np.reshape(A.calc_rotation_matrix(a, b, vparity=case["vparity"]), (2, 2))
        t = a - case["vparity"] * b
        # the y axis points to position angle t, the x axis follows the parity
        close(M[:, 1], [np.sin(t), np.cos(t)], "direction of the y axis", rtol=0, atol=1e-12)
        close(M[:, 0], [case["vparity"] * np.cos(t), -case["vparity"] * np.sin(t)], "direction of the x axis", rtol=0, atol=1e-12)
    return len(ws) > 1 or case["images"][0]["bbox"] is not None, [f"{min(len(ws), 3)} images", "centre" if case["center"] else "corner"]


# ------------------------------------------------------------------ slit spectra
@st.composite
def slits(draw):
    f = lambda lo, hi: lo + draw(st.integers(0, 4095)) / 4095.0 * (hi - lo)
    out = []
    ra, dec = draw(st.sampled_from([0.0, 10.0, 359.9999, 180.0])), draw(st.sampled_from([0.0, 45.0, -70.0, 12.3]))
    for _ in range(draw(st.integers(1, 4))):
        nx, ny = draw(st.integers(2, 40)), draw(st.integers(2, 40))
        out.append({"ra": ra, "dec": dec + f(-1, 1) * 1e-3, "pa": f(0, 360), "s": draw(st.sampled_from([3e-5, 1e-4])) * f(0.9, 1.1), "dl": draw(st.sampled_from([0.01, -0.002, 0.1])) * f(0.5, 1),
                    "tl": draw(st.sampled_from([0.0, 0.001, -0.004])), "l0": f(0.6, 5), "disp": draw(st.sampled_from([1, 2])), "c": [f(0, nx), f(0, ny)], "shape": [ny, nx]})
    return {"slits": out, "ratio": draw(st.sampled_from([None, 0.5, 2.0])), "at": [f(0, 1), f(0, 1)], "box": draw(st.sampled_from([None, None, [[0.5, 3.5], [-0.5, 7.5]]]))}


def build_slit(q):
    from astropy import coordinates as coord
    from astropy import units as u
    from astropy.modeling import models as m
    from gwcs import WCS
    from gwcs import coordinate_frames as cf
    iv, iu = (0, 1) if q["disp"] == 1 else (1, 0)
    sn, cs = np.sin(np.deg2rad(q["pa"])), np.cos(np.deg2rad(q["pa"]))
    cu, cv = q["c"][iu], q["c"][iv]
    t = m.Mapping((iu, iu, iu, iv), n_inputs=2) | m.Shift(-cu) & m.Shift(-cu) & m.Shift(-cu) & m.Shift(-cv)
    t = t | m.Scale(q["s"] * sn) & m.Scale(q["s"] * cs) & m.Polynomial2D(1, c1_0=q["tl"], c0_1=q["dl"])
    t = t | m.Pix2Sky_TAN() & m.Identity(1) | m.RotateNative2Celestial(q["ra"], q["dec"], 180.0) & m.Shift(q["l0"])
    b = m.RotateCelestial2Native(q["ra"], q["dec"], 180.0) & m.Shift(-q["l0"]) | m.Sky2Pix_TAN() & m.Identity(1)
    b = b | m.Polynomial2D(1, c1_0=sn / q["s"], c0_1=cs / q["s"]) & m.Identity(1) | m.Mapping((0, 0, 1))
    b = b | m.Identity(1) & m.Polynomial2D(1, c1_0=-q["tl"] / q["dl"], c0_1=1 / q["dl"]) | m.Shift(cu) & m.Shift(cv) | m.Mapping((1, 0) if q["disp"] == 1 else (0, 1))
    t.inverse = b
    sky = cf.CelestialFrame(name="sky", axes_order=(0, 1), reference_frame=coord.ICRS(), unit=(u.deg, u.deg))
    lam = cf.SpectralFrame(name="lam", axes_order=(2,), unit=(u.micron,), axes_names=("wavelength",))
    w = WCS([(cf.Frame2D(name="detector", axes_order=(0, 1), unit=(u.pix, u.pix)), t), (cf.CompositeFrame([sky, lam], name="world"), None)])
    ny, nx = q["shape"]
    w.bounding_box = ((-0.5, nx - 0.5), (-0.5, ny - 0.5))
    return w


def at_slit(q, x, y):
    u, v = (y, x) if q["disp"] == 1 else (x, y)
    iv, iu = (0, 1) if q["disp"] == 1 else (1, 0)
    u, v = np.asarray(u, float) - q["c"][iu], np.asarray(v, float) - q["c"][iv]
    a = np.deg2rad(q["s"]) * u
    r, d, pa = np.deg2rad(q["ra"]), np.deg2rad(q["dec"]), np.deg2rad(q["pa"])
    e = np.array([-np.sin(r), np.cos(r), 0.0])
    n = np.array([-np.sin(d) * np.cos(r), -np.sin(d) * np.sin(r), np.cos(d)])
    p = vec(q["ra"], q["dec"]) + (a * np.sin(pa))[..., None] * e + (a * np.cos(pa))[..., None] * n
    return p / np.linalg.norm(p, axis=-1, keepdims=True), q["l0"] + q["dl"] * v + q["tl"] * u


def run_slits(case):
    from stcal.alignment.util import compute_fiducial, compute_scale
    ws = [build_slit(q) for q in case["slits"]]
    V, L = [], []
    for q in case["slits"]:
        ny, nx = q["shape"]
        x, y = corners(case["box"] or [[-0.5, nx - 0.5], [-0.5, ny - 0.5]])
        v, lam = at_slit(q, x, y)
        V.append(v)
        L.append(lam)
    V, L = np.vstack(V), np.concatenate(L)
    m = (V.max(axis=0) + V.min(axis=0)) / 2
    m /= np.linalg.norm(m)
    kw = {"bounding_box": tuple(map(tuple, case["box"]))} if case["box"] else {}
    fid = np.asarray(compute_fiducial(ws, **kw))
    check(fid.shape == (3,) and 0 <= fid[0] <= 360, f"fiducial {fid}")
    err = np.abs(vec(fid[0], fid[1]) - m).max()
    check(err < 2e-13, f"fiducial {fid} is off by {np.rad2deg(err):.3g} deg from {radec(m)}")
    check(abs(fid[2] - L.min()) < 1e-11, f"fiducial wavelength {fid[2]}, the range begins at {L.min()}")
    q, w = case["slits"][0], ws[0]
    ny, nx = q["shape"]
    x, y = case["at"][0] * nx, case["at"][1] * ny
    dx, dy = (0, 1) if q["disp"] == 1 else (1, 0)
    p, lam = at_slit(q, np.array([x, x + dx]), np.array([y, y + dy]))
    want = np.rad2deg(2 * np.arcsin(np.linalg.norm(p[0] - p[1]) / 2)) * (case["ratio"] or 1.0)
    a, d = radec(p[0])
    try:
        compute_scale(w, (float(a), float(d), float(lam[0])), pscale_ratio=case["ratio"])
        fail("a spectral image without dispersion axis has a scale")
    except ValueError:
        pass
    got = compute_scale(w, (float(a), float(d), float(lam[0])), disp_axis=q["disp"], pscale_ratio=case["ratio"])
    check(abs(got - want) < want * (1e-9 / q["s"] * 1e-3 + 1e-6), f"scale {got!r} across the dispersion, expected {want!r}")
    return len(ws) > 1, [f"dispersion {q['disp']}"]


COMPONENTS = [Component("slits", slits, run_slits, quick=200, thorough=6000, shards=2),
              Component("footprints", images, run, quick=700, thorough=25000, shards=6)]

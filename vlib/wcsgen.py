"""Random imaging coordinate transforms (gwcs) with an independent numpy implementation of the same transform."""
import numpy as np
from hypothesis import strategies as st


@st.composite
def frames(draw, shape, crval=None, scale=None, bend=True, near=None, sky="any"):
    """Parameters of a TAN image: shape (ny, nx), reference point, scale [deg], rotation, parity, quadratic bend, bounding box."""
    ny, nx = shape
    if crval is None:
        dec = draw(st.sampled_from([0.0, 45.0, -70.0, 88.5, -89.9, 12.3]))
        ra = draw(st.sampled_from([0.0, 10.0, 359.9999, 180.0, 271.3]))
        crval = (ra, dec)
    f = lambda lo, hi: lo + draw(st.integers(0, 4095)) / 4095.0 * (hi - lo)
    scale = scale or draw(st.sampled_from([3e-5, 1e-5, 1e-4]))
    p = {"shape": [int(ny), int(nx)], "crval": [float(crval[0]), float(crval[1])], "crpix": [f(-0.2, 1.2) * nx, f(-0.2, 1.2) * ny],
         "scale": scale * f(0.9, 1.1), "rot": draw(st.sampled_from([0.0, 30.0, 90.0, -135.0, 180.0, 3.3, 271.0])),
         "flip": draw(st.sampled_from([-1, -1, 1])), "bend": 0.0, "bbox": None, "array_shape": True}
    if bend:
        p["bend"] = draw(st.sampled_from([0.0, 1.0, -1.0, 0.3])) * 0.02 / max(nx, ny)
    kind = draw(st.sampled_from(["full", "none", "inner", "outer"]))
    if kind == "full":
        p["bbox"] = [[-0.5, nx - 0.5], [-0.5, ny - 0.5]]
    elif kind == "inner":
        low = draw(st.sampled_from([-0.5, min(1.3, ny / 4), min(1.0, ny / 5)]))
        p["bbox"] = [[min(1.5, nx / 4), nx - 0.5 - min(1, nx / 4)], [low, max(low + 0.5, ny - 1.6)]]
    elif kind == "outer":
        p["bbox"] = [[-2.5, nx + 3.0], [-1.0, ny + 0.5]]
    return p


def build(p):
    """The gwcs object."""
    from astropy import coordinates as coord
    from astropy import units as u
    from astropy.modeling import models as m
    from gwcs import WCS
    from gwcs import coordinate_frames as cf
    a = np.deg2rad(p["rot"])
    mat = p["scale"] * np.array([[p["flip"] * np.cos(a), -np.sin(a)], [p["flip"] * np.sin(a), np.cos(a)]])
    t = m.Shift(-p["crpix"][0]) & m.Shift(-p["crpix"][1])
    if p["bend"]:
        poly = lambda s: m.Mapping((0, 1, 1)) | m.Polynomial2D(2, c1_0=1.0, c0_2=s * p["bend"]) & m.Identity(1)
        d, inv = poly(1), poly(-1)
        d.inverse = inv
        t = t | d
    t = t | m.AffineTransformation2D(mat) | m.Pix2Sky_TAN() | m.RotateNative2Celestial(p["crval"][0], p["crval"][1], 180.0)
    det = cf.Frame2D(name="detector", axes_order=(0, 1), unit=(u.pix, u.pix))
    sky = cf.CelestialFrame(name="world", reference_frame=coord.ICRS(), unit=(u.deg, u.deg))
    w = WCS([(det, t), (sky, None)])
    if p["bbox"] is not None:
        w.bounding_box = tuple(tuple(float(v) for v in b) for b in p["bbox"])
    if p["array_shape"]:
        w.array_shape = tuple(p["shape"])
    return w


def p2w(p, x, y):
    """Pixel to unit vectors, by plain vector algebra."""
    a = np.deg2rad(p["rot"])
    x, y = np.asarray(x, float) - p["crpix"][0], np.asarray(y, float) - p["crpix"][1]
    x = x + p["bend"] * y * y
    s = np.deg2rad(p["scale"])
    xi = s * (p["flip"] * np.cos(a) * x - np.sin(a) * y)
    eta = s * (p["flip"] * np.sin(a) * x + np.cos(a) * y)
    r0, d0 = np.deg2rad(p["crval"])
    c = np.array([np.cos(d0) * np.cos(r0), np.cos(d0) * np.sin(r0), np.sin(d0)])
    e = np.array([-np.sin(r0), np.cos(r0), 0.0])
    n = np.array([-np.sin(d0) * np.cos(r0), -np.sin(d0) * np.sin(r0), np.cos(d0)])
    v = c + xi[..., None] * e + eta[..., None] * n
    return v / np.linalg.norm(v, axis=-1, keepdims=True)


def w2p(p, v):
    """Unit vectors to pixel."""
    r0, d0 = np.deg2rad(p["crval"])
    c = np.array([np.cos(d0) * np.cos(r0), np.cos(d0) * np.sin(r0), np.sin(d0)])
    e = np.array([-np.sin(r0), np.cos(r0), 0.0])
    n = np.array([-np.sin(d0) * np.cos(r0), -np.sin(d0) * np.sin(r0), np.cos(d0)])
    z = v @ c
    xi, eta = (v @ e) / z, (v @ n) / z
    s, a = np.deg2rad(p["scale"]), np.deg2rad(p["rot"])
    x = p["flip"] * (np.cos(a) * xi + np.sin(a) * eta) / s
    y = (-np.sin(a) * xi + np.cos(a) * eta) / s
    # the matrix [[f c, -s], [f s, c]] is orthogonal: its inverse is its transpose
    x = x - p["bend"] * y * y
    return x + p["crpix"][0], y + p["crpix"][1]


def vec(ra, dec):
    ra, dec = np.deg2rad(ra), np.deg2rad(dec)
    return np.stack([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)], axis=-1)


def radec(v):
    return np.rad2deg(np.arctan2(v[..., 1], v[..., 0])) % 360, np.rad2deg(np.arctan2(v[..., 2], np.hypot(v[..., 0], v[..., 1])))


def inside(bbox, x, y):
    """Within a bounding box, with the decision left open next to its edge: (in, open)"""
    if bbox is None:
        return np.ones(np.shape(x), bool), np.zeros(np.shape(x), bool)
    (x1, x2), (y1, y2) = bbox
    d = np.minimum.reduce([x - x1, x2 - x, y - y1, y2 - y])
    return d >= 0, np.abs(d) < 1e-6


def pair(draw, p, shape, dither=3.0, scale=None, **kw):
    """Another image that overlaps image p: its centre lands within dither pixels of the centre of p."""
    q = draw(frames(shape, crval=p["crval"], scale=scale or p["scale"], **kw))
    f = lambda: (draw(st.integers(0, 2048)) / 1024.0 - 1) * dither
    cx, cy = p["shape"][1] / 2 + f(), p["shape"][0] / 2 + f()
    x, y = w2p(q, p2w(p, cx, cy))
    # shift the reference pixel so that the centres meet; the bend is about the reference pixel, so this is exact
    q["crpix"][0] += float(shape[1] / 2 - x)
    q["crpix"][1] += float(shape[0] / 2 - y)
    return q

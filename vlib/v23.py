"""Telescope-like coordinate transforms (detector - V2V3 - sky) as gwcs objects and, independently, in plain vector algebra."""
import numpy as np
from vlib.wcsgen import radec, vec

ARC = np.pi / 180 / 3600


def frame_v(v2, v3):
    """Direction, and directions of growing V2 and V3, of a point of the V frame [arcsec]."""
    a, d = v2 * ARC, v3 * ARC
    return (np.array([np.cos(d) * np.cos(a), np.cos(d) * np.sin(a), np.sin(d)]), np.array([-np.sin(a), np.cos(a), 0.0]),
            np.array([-np.sin(d) * np.cos(a), -np.sin(d) * np.sin(a), np.cos(d)]))


def attitude(v2, v3, ra, dec, roll):
    """Matrix from the V frame to the sky that puts (v2, v3) at (ra, dec) with the V3 axis at position angle roll there."""
    r, e, n = frame_v(v2, v3)
    R, E, N = frame_v(ra * 3600, dec * 3600)
    t = np.deg2rad(roll)
    e2, n2 = E * np.cos(t) - N * np.sin(t), N * np.cos(t) + E * np.sin(t)
    return np.outer(R, r) + np.outer(e2, e) + np.outer(n2, n)


def angles(A, v2, v3):
    """The (ra, dec, roll) of the point (v2, v3) under an attitude."""
    r, e, n = frame_v(v2, v3)
    R, n2 = A @ r, A @ n
    ra, dec = radec(R)
    _, E, N = frame_v(ra * 3600, dec * 3600)
    return float(ra), float(dec), float(np.rad2deg(np.arctan2(n2 @ E, n2 @ N)))


def tilt(A, v2, v3, d2, d3, twist):
    """Displace an attitude: (v2, v3) moves by (d2, d3) arcsec along the V axes, then everything twists by twist deg about it."""
    r, e, n = frame_v(v2, v3)
    R, E, N = A @ r, A @ e, A @ n
    axis = -E * d3 + N * d2
    size = np.linalg.norm(axis) * ARC
    out = A
    if size:
        out = rot(axis / np.linalg.norm(axis), size) @ out
    return rot(out @ r, np.deg2rad(twist)) @ out


def rot(k, t):
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + np.sin(t) * K + (1 - np.cos(t)) * K @ K


def det_matrix(p):
    a = np.deg2rad(p["angle"])
    return p["scale"] * np.array([[p["flip"] * np.cos(a), -np.sin(a)], [p["flip"] * np.sin(a), np.cos(a)]])


def pix2sky(p, A, x, y):
    v = np.tensordot(det_matrix(p), np.array([np.asarray(x, float) - p["crpix"][0], np.asarray(y, float) - p["crpix"][1]]), 1)
    a, d = (v[0] + p["at"][0]) * ARC, (v[1] + p["at"][1]) * ARC
    return np.stack([np.cos(d) * np.cos(a), np.cos(d) * np.sin(a), np.sin(d)], axis=-1) @ A.T


def sky2pix(p, A, u):
    v = u @ A
    v2 = np.arctan2(v[..., 1], v[..., 0]) / ARC - p["at"][0]
    v3 = np.arctan2(v[..., 2], np.hypot(v[..., 0], v[..., 1])) / ARC - p["at"][1]
    q = np.tensordot(np.linalg.inv(det_matrix(p)), np.array([v2, v3]), 1)
    return q[0] + p["crpix"][0], q[1] + p["crpix"][1]


def build(p, v2, v3, ra, dec, roll, va=False, names=("detector", "v2v3", "v2v3vacorr", "world"), box=True):
    """p: scale [arcsec], angle, flip, crpix, at (V2, V3 of the reference pixel), shape."""
    from astropy import coordinates as coord
    from astropy import units as u
    from astropy.modeling import models as m
    from astropy.modeling.rotations import RotationSequence3D
    from gwcs import WCS
    from gwcs import coordinate_frames as cf
    from gwcs.geometry import CartesianToSpherical, SphericalToCartesian
    det = cf.Frame2D(name=names[0], axes_order=(0, 1), unit=(u.pix, u.pix))
    v23 = cf.Frame2D(name=names[1], axes_order=(0, 1), axes_names=("v2", "v3"), unit=(u.arcsec, u.arcsec))
    vac = cf.Frame2D(name=names[2], axes_order=(0, 1), axes_names=("v2", "v3"), unit=(u.arcsec, u.arcsec))
    sky = cf.CelestialFrame(name=names[3], reference_frame=coord.ICRS(), unit=(u.deg, u.deg))
    first = m.Shift(-p["crpix"][0]) & m.Shift(-p["crpix"][1]) | m.AffineTransformation2D(det_matrix(p)) | m.Shift(p["at"][0]) & m.Shift(p["at"][1])
    spin = RotationSequence3D([v2 / 3600, -v3 / 3600, roll, dec, -ra], "zyxyz")
    last = m.Scale(1 / 3600) & m.Scale(1 / 3600) | SphericalToCartesian(wrap_lon_at=180) | spin | CartesianToSpherical(wrap_lon_at=360)
    steps = [(det, first)]
    if va:
        k = 1.00003
        steps += [(v23, m.Scale(k) & m.Scale(k) | m.Shift((1 - k) * v2) & m.Shift((1 - k) * v3)), (vac, last)]
    else:
        steps += [(v23, last)]
    w = WCS(steps + [(sky, None)])
    ny, nx = p["shape"]
    if box:
        w.bounding_box = ((-0.5, nx - 0.5), (-0.5, ny - 0.5))
    w.array_shape = (ny, nx)
    return w

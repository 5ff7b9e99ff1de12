"""Random layouts of overlapping images on the sky for the sky matching checks."""
import numpy as np
from hypothesis import strategies as st
from . import wcsgen
from .gen import raw8, table


def callables(p):
    def fwd(x, y, with_bounding_box=True):
        return wcsgen.radec(wcsgen.p2w(p, np.asarray(x, float), np.asarray(y, float)))

    def inv(ra, dec, with_bounding_box=True):
        return wcsgen.w2p(p, wcsgen.vec(np.asarray(ra, float), np.asarray(dec, float)))
    return fwd, inv


@st.composite
def layout(draw, nmax=6, size=(12, 26), spread=(0.3, 1.2)):
    """Frames of 1..nmax images scattered around the first one."""
    f = lambda: (draw(st.integers(size[0], size[1])), draw(st.integers(size[0], size[1])))
    s = f()
    p = draw(wcsgen.frames(s, bend=False))
    p["bbox"] = None
    p["crpix"] = [s[1] / 2, s[0] / 2]
    out = [p]
    n = min(nmax, draw(st.sampled_from([2, 3, 4, 6, 5, 1])))
    sp = draw(st.sampled_from([spread[0], spread[1], 0.7]))
    for i in range(n - 1):
        base = draw(st.sampled_from(out))
        s = f()
        q = wcsgen.pair(draw, base, s, dither=sp * (size[0] + size[1]) / 2, scale=p["scale"] * draw(st.sampled_from([1.0, 1.0, 0.8, 1.3])), bend=False)
        q["bbox"] = None
        out.append(q)
    return out


def corners(p):
    ny, nx = p["shape"]
    return np.array([-0.5, nx - 0.5, nx - 0.5, -0.5]), np.array([-0.5, -0.5, ny - 0.5, ny - 0.5])


def polygon(p, q):
    """Outline of image q in pixels of image p."""
    import shapely
    x, y = wcsgen.w2p(p, wcsgen.p2w(q, *corners(q)))
    return shapely.polygons(np.stack([x, y], axis=-1))


def overlap(p, q):
    """Overlap of image q with image p, in pixels of p."""
    import shapely
    return shapely.intersection(polygon(p, p), polygon(p, q))


def degenerate(p, q):
    """Corners of one image on an edge of the other: polygon clipping on the sphere is delicate there."""
    import shapely
    a, b = polygon(p, p), polygon(p, q)
    if p is q or shapely.equals(a, b):
        return True
    ca, cb = shapely.points(shapely.get_coordinates(a)), shapely.points(shapely.get_coordinates(b))
    return bool(min(shapely.distance(ca, shapely.boundary(b)).min(), shapely.distance(cb, shapely.boundary(a)).min()) < 0.03)


def region(p, q, margin=2.3):
    """(pixels surely inside the overlap, pixels in doubt) for image p; the polygon filling of gwcs is off by up to two pixels at slanted edges."""
    import shapely
    o = overlap(p, q)
    y, x = np.indices(p["shape"])
    pts = shapely.points(x, y)
    if shapely.is_empty(o) or shapely.area(o) == 0:
        return np.zeros(p["shape"], bool), np.zeros(p["shape"], bool)
    d = shapely.distance(pts, shapely.boundary(o))
    ins = shapely.contains(o, pts)
    return ins & (d > margin), d <= margin


def make(p, image, mask, stat, sky_id, stepsize=None):
    from stcal.skymatch import SkyImage
    fwd, inv = callables(p)
    return SkyImage(image, mask, fwd, inv, stat, sky_id=sky_id, stepsize=stepsize)

"""A small partitioned (HATS) catalogue on local disk that stands in for the remote one."""
import contextlib, os, tempfile
from unittest import mock
import numpy as np
from hypothesis import strategies as st
from vlib.wcsgen import radec, vec

FLOATS = ("ra_error", "dec_error", "parallax", "parallax_error", "ref_epoch", "pmra", "pmra_error", "pmdec", "pmdec_error", "phot_g_mean_mag")


@st.composite
def stores(draw, epochs=False):
    f = lambda lo, hi: lo + draw(st.integers(0, 1 << 20)) / float(1 << 20) * (hi - lo)
    ra = draw(st.sampled_from([0.0, 1e-4, 359.9999, 45.0, 180.0, 90.0, 270.1, f(0, 360)]))
    dec = draw(st.sampled_from([0.0, 90.0, -90.0, 89.99, -89.5, 41.8103, -41.8103, f(-90, 90), f(-90, 90)]))
    radius = draw(st.sampled_from([0.003, 0.05, 0.1, 0.5, 2.0, 6.0]))
    n = draw(st.integers(0, 40))
    pos = []
    c = vec(ra, dec)
    e = np.array([-np.sin(np.deg2rad(ra)), np.cos(np.deg2rad(ra)), 0.0])
    nn = np.cross(c, e)
    for _ in range(n):
        kind = draw(st.sampled_from(["near", "near", "near", "far", "edge", "edge"]))
        if kind == "far":
            pos.append((f(0, 360), f(-90, 90)))
            continue
        r = np.deg2rad(radius * (f(0, 3) if kind == "near" else draw(st.sampled_from([0.999, 1.001, 0.99999, 1.00001]))))
        a = f(0, 2 * np.pi)
        v = c * np.cos(r) + (e * np.cos(a) + nn * np.sin(a)) * np.sin(r)
        pos.append(tuple(float(k) for k in radec(v)))
    cols = {}
    for name in FLOATS:
        lo, hi = {"parallax": (-1, 800), "pmra": (-3000, 3000), "pmdec": (-3000, 3000), "phot_g_mean_mag": (5, 21), "ref_epoch": (2016, 2016)}.get(name, (0, 1))
        cols[name] = [f(lo, hi) for _ in pos]
    for k in range(n):
        lost = draw(st.sampled_from(["none", "none", "motion", "pmra", "pmdec", "mag"] if not epochs else ["none"] * 5 + ["motion", "motion", "pmra", "pmdec", "mag"]))
        for name in {"motion": ("parallax", "pmra", "pmdec"), "pmra": ("pmra",), "pmdec": ("pmdec",), "mag": ("phot_g_mean_mag",), "none": ()}[lost]:
            cols[name][k] = None
        if epochs and draw(st.integers(0, 5)) == 0 and cols["parallax"][k] is not None:
            cols["parallax"][k] = 0.0
    epoch = None
    if epochs:
        epoch = draw(st.sampled_from([2016.0, 2017.3, 2024.75, 2030.123, 1991.25, f(2015, 2045)]))
    return {"ra": ra, "dec": dec, "radius": radius, "pos": pos, "cols": cols, "epoch": epoch,
            "splits": draw(st.lists(st.integers(0, 7), min_size=30, max_size=30)), "base": draw(st.sampled_from([0, 0, 1, 2])),
            "deepest": draw(st.sampled_from([2, 3, 4, 6])), "listed": draw(st.sampled_from(["all", "filled"]))}


def partition(case):
    """(depth, pixel) -> indices of its sources; deterministic from the case."""
    from astropy_healpix import lonlat_to_healpix
    import astropy.units as u
    ids = []
    for ra, dec in case["pos"]:
        ids.append(int(lonlat_to_healpix(ra * u.deg, dec * u.deg, 2**29, order="nested")))
    leaves, k = {}, 0
    todo = [(case["base"], p) for p in range(12 * 4 ** case["base"])]
    while todo:
        d, p = todo.pop(0)
        inside = [i for i, h in enumerate(ids) if h >> (2 * (29 - d)) == p]
        split = case["splits"][k % len(case["splits"])]
        if inside and d < case["deepest"] and split > 2:
            todo += [(d + 1, 4 * p + j) for j in range(4)]
        else:
            leaves[(d, p)] = inside
        k += bool(inside)
    return ids, leaves


@contextlib.contextmanager
def served(case):
    """Write the store and make the library read it instead of the remote one."""
    import pyarrow as pa
    import pyarrow.fs
    import pyarrow.parquet as pq
    from stcal.tweakreg import _s3_catalog as S
    ids, leaves = partition(case)
    if case["listed"] == "filled" and any(leaves.values()):
        leaves = {k: v for k, v in leaves.items() if v}
    with tempfile.TemporaryDirectory() as tmp:
        with open(os.path.join(tmp, "partition_info.csv"), "w") as fh:
            fh.write("Norder,Npix\n" + "".join(f"{d},{p}\n" for d, p in leaves))
        for (d, p), rows in leaves.items():
            path = os.path.join(tmp, "dataset", f"Norder={d}", f"Dir={p // 10000 * 10000}")
            os.makedirs(path, exist_ok=True)
            rows = sorted(rows, key=lambda i: ids[i])
            t = {"_healpix_29": pa.array([ids[i] for i in rows], pa.int64()), "source_id": pa.array([4000000000000000001 + i for i in rows], pa.int64()),
                 "ra": pa.array([case["pos"][i][0] for i in rows], pa.float64()), "dec": pa.array([case["pos"][i][1] for i in rows], pa.float64()),
                 "extra": pa.array(["x"] * len(rows), pa.string())}
            for name in FLOATS:
                t[name] = pa.array([case["cols"][name][i] for i in rows], pa.float64())
            pq.write_table(pa.table(t), os.path.join(path, f"Npix={p}.parquet"))
        with mock.patch.object(pyarrow.fs, "S3FileSystem", lambda *a, **k: pyarrow.fs.LocalFileSystem()), \
                mock.patch.dict(S.S3_NAMES_TO_CATALOGS, {"GAIADR3_S3": "s3://" + tmp + "/"}):
            yield leaves


def separation(case):
    """Angle [rad] of every source to the centre of the cone."""
    if not case["pos"]:
        return np.zeros(0)
    c = vec(case["ra"], case["dec"])
    p = np.array(case["pos"])
    v = vec(p[:, 0], p[:, 1])
    return np.arctan2(np.linalg.norm(np.cross(v, c), axis=1), v @ c)

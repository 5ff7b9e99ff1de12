import numpy as np
from hypothesis import strategies as st
from vlib.core import Component, check
from vlib.hats import separation, served, stores
from vlib.wcsgen import radec, vec

RULE = ("random catalogue sources (positions up to the poles, motions up to 3 arcsec a year, parallaxes up to 0.8 arcsec, missing data) and epochs, against "
        "straight-line motion in space seen from the Earth's position (ERFA); non-trivial when a source moves by more than a milliarcsecond; distinct by content")
MAS = np.pi / 180 / 3600 / 1000


def earth(epoch):
    import erfa
    from astropy.time import Time
    t = Time(epoch, format="decimalyear").tdb
    return np.array(erfa.epv00(t.jd1, t.jd2)[1]["p"])


def run(case):
    from stcal.tweakreg.astrometric_utils import get_catalog
    epoch = case["epoch"]
    sep, r = separation(case), np.deg2rad(case["radius"])
    with served(case):
        t = get_catalog(case["ra"], case["dec"], epoch=epoch, search_radius=case["radius"], catalog="GAIADR3_S3")
    cols = case["cols"]
    known = np.array([cols["pmra"][k] is not None and cols["pmdec"][k] is not None for k in range(len(sep))], bool)
    inside = sep <= r
    open_ = np.abs(np.cos(sep) - np.cos(r)) < 1e-15
    ids = [int(k) - 4000000000000000001 for k in t["source_id"]]
    wrong = [k for k in range(len(sep)) if not open_[k] and ((k in ids) != (inside[k] and known[k]))]
    check(not wrong and len(ids) == len(set(ids)), lambda: f"source {wrong[0]} (motion {'known' if known[wrong[0]] else 'unknown'}, inside {inside[wrong[0]]}) "
          f"{'is' if wrong[0] in ids else 'is not'} returned for epoch {epoch}")
    e = earth(epoch)
    moved = False
    for row, k in enumerate(ids):
        ra, dec = case["pos"][k]
        a, d = np.deg2rad(ra), np.deg2rad(dec)
        u = vec(ra, dec)
        east = np.array([-np.sin(a), np.cos(a), 0.0])
        north = np.array([-np.sin(d) * np.cos(a), -np.sin(d) * np.sin(a), np.cos(d)])
        mu = (east * cols["pmra"][k] + north * cols["pmdec"][k]) * MAS
        plx = cols["parallax"][k] * MAS
        dt = epoch - cols["ref_epoch"][k]
        want = u + mu * dt - plx * e        # in units of the distance of the source
        want /= np.linalg.norm(want)
        got = vec(float(t["ra"][row]), float(t["dec"][row]))
        size = np.linalg.norm(want - u)
        err = np.linalg.norm(got - want)
        tol = 2e-15 * 50 + 3 * (np.linalg.norm(mu) * abs(dt) + abs(plx)) ** 2
        check(err <= tol, f"source {k} at ({ra}, {dec}), motion ({cols['pmra'][k]}, {cols['pmdec'][k]}) mas/yr, parallax {cols['parallax'][k]} mas: at epoch {epoch} "
              f"({float(t['ra'][row])}, {float(t['dec'][row])}), expected {tuple(float(x) for x in radec(want))}, off by {err / MAS:.4g} mas")
        check(0 <= float(t["ra"][row]) <= 360 and abs(float(t["dec"][row])) <= 90, f"position ({t['ra'][row]}, {t['dec'][row]})")
        check(float(t["epoch"][row]) == 2016.0, "the reference epoch column changed")
        moved |= bool(size > MAS)
    return moved, ["at the reference epoch" if epoch == 2016.0 else "other epoch"]


COMPONENTS = [Component("motion", lambda: stores(epochs=True), run, quick=350, thorough=12000, shards=7)]

import numpy as np
from vlib.core import Component, check
from vlib.hats import FLOATS, separation, served, stores

RULE = ("random catalogues on disk, partitioned adaptively over HEALPix levels 0 to 6, and cones anywhere (poles, RA 0, HEALPix corners), against a brute-force "
        "search of all sources; non-trivial when some sources are inside and some outside the cone; distinct by content")


def run(case):
    from stcal.tweakreg.astrometric_utils import get_catalog
    sep, r = separation(case), np.deg2rad(case["radius"])
    with served(case) as leaves:
        t = get_catalog(case["ra"], case["dec"], epoch=None, search_radius=case["radius"], catalog="GAIADR3_S3")
    inside = sep <= r
    # the cosine that decides has limited precision
    open_ = np.abs(np.cos(sep) - np.cos(r)) < 1e-15
    ids = [int(k) - 4000000000000000001 for k in t["source_id"]]
    check(len(set(ids)) == len(ids), f"sources returned twice: {sorted(ids)}")
    wrong = [k for k in range(len(sep)) if not open_[k] and (k in ids) != inside[k]]
    check(not wrong, lambda: f"source {wrong[0]} at {case['pos'][wrong[0]]}, {np.rad2deg(sep[wrong[0]]):.6f} deg from ({case['ra']}, {case['dec']}) is "
          f"{'missing' if inside[wrong[0]] else 'returned'} for a radius of {case['radius']} deg; partitions {sorted(leaves)}")
    check(all(0 <= k < len(sep) for k in ids), f"unknown sources {ids}")
    for name in ("ra", "dec", "source_id", "mag", "objID", "epoch") + FLOATS:
        check(name in t.colnames, f"column {name} is missing: {t.colnames}")
    alias = {"mag": "phot_g_mean_mag", "epoch": "ref_epoch"}
    for row, k in enumerate(ids):
        check((float(t["ra"][row]), float(t["dec"][row])) == tuple(case["pos"][k]), f"source {k} moved")
        check(int(t["objID"][row]) == k + 4000000000000000001, f"objID {t['objID'][row]} of source {k}")
        for name in FLOATS + ("mag", "epoch"):
            want = case["cols"][alias.get(name, name)][k]
            m = bool(np.ma.getmaskarray(t[name])[row])
            check(m == (want is None) and (m or float(t[name][row]) == want), f"{name} of source {k} is {t[name][row]}, stored {want}")
    return bool(inside.any() and not inside.all()), [f"depth {max(d for d, _ in leaves)}", case["listed"], "empty" if not ids else "found"]


COMPONENTS = [Component("cone", lambda: stores(), run, quick=350, thorough=12000, shards=7)]

import numpy as np
from hypothesis import strategies as st
from vlib.core import Component, check, fail
from vlib.v23 import attitude, build, pix2sky
from vlib.wcsgen import vec

RULE = ("random pointings (any reference angles, rolls, parities), with and without velocity-aberration frame and tangent-plane corrections, and transforms of other "
        "structure; against an attitude matrix built from the returned keywords; non-trivial when a correction or extra frame is present; distinct by content")


@st.composite
def pointings(draw):
    f = lambda lo, hi: lo + draw(st.integers(0, 1 << 20)) / float(1 << 20) * (hi - lo)
    v2, v3 = f(-600, 600), f(-800, 100)
    p = {"shape": [draw(st.integers(10, 100)), draw(st.integers(10, 100))], "scale": draw(st.sampled_from([0.03, 0.065, 0.11])), "angle": f(-180, 180),
         "flip": draw(st.sampled_from([-1, 1])), "crpix": [f(0, 60), f(0, 60)], "at": [v2 + f(-30, 30), v3 + f(-30, 30)]}
    return {"p": p, "v2": v2, "v3": v3, "ra": draw(st.sampled_from([0.0, 359.9999, 10.0, f(0, 360), f(0, 360)])), "dec": draw(st.sampled_from([0.0, 89.9, -89.0, f(-90, 90), f(-90, 90)])),
            "roll": draw(st.sampled_from([0.0, 180.0, f(-180, 360), f(0, 360)])), "va": draw(st.booleans()),
            "fix": [[f(-2, 2), f(-2, 2), f(-1, 1)] for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2])))], "bad": draw(st.sampled_from([None] * 9 + ["v2v3", "world", "rotation", "beyond"]))}


def run(case):
    from astropy.modeling import models as m
    from gwcs import WCS
    from stcal.tweakreg.utils import _wcsinfo_from_wcs_transform
    p, v2, v3, ra, dec, roll = (case[k] for k in ("p", "v2", "v3", "ra", "dec", "roll"))
    if case["bad"]:
        names = ["detector", "v2v3", "v2v3vacorr", "world"]
        if case["bad"] == "v2v3":
            names[1] = "ideal"
        elif case["bad"] == "world":
            names[3] = "sky"
        w = build(p, v2, v3, ra, dec, roll, va=case["va"], names=names)
        if case["bad"] == "rotation":
            steps = [(s.frame, s.transform) for s in w.pipeline]
            steps[-2] = (steps[-2][0], m.Scale(1 / 3600) & m.Scale(1 / 3600) | m.Pix2Sky_TAN() | m.RotateNative2Celestial(ra, dec, 180.0))
            w = WCS(steps)
        elif case["bad"] == "beyond":      # the sky is not the last frame
            from astropy import units as u
            from gwcs import coordinate_frames as cf
            steps = [(s.frame, s.transform) for s in w.pipeline]
            end = cf.Frame2D(name="other", axes_order=(0, 1), unit=(u.deg, u.deg))
            w = WCS(steps[:-1] + [(steps[-1][0], m.Scale(2.0) & m.Scale(2.0)), (end, None)])
        try:
            out = _wcsinfo_from_wcs_transform(w)
        except ValueError:
            return True, ["rejected"]
        fail(f"keywords {out} from a transform of unsupported structure ({case['bad']})")
    w = build(p, v2, v3, ra, dec, roll, va=case["va"])
    if case["fix"]:
        from tweakwcs.correctors import JWSTWCSCorrector
        c = JWSTWCSCorrector(w, {"v2_ref": v2, "v3_ref": v3, "roll_ref": roll})
        for dx, dy, t in case["fix"]:
            a = np.deg2rad(t)
            c.set_correction(matrix=[[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]], shift=[dx, dy])
        w = c.wcs
    out = _wcsinfo_from_wcs_transform(w)
    check(sorted(out) == ["dec_ref", "ra_ref", "roll_ref", "v2_ref", "v3_ref"], f"keywords {sorted(out)}")
    got = {k: float(v) for k, v in out.items()}
    # the reference position and roll, modulo whole turns
    for key, want, tol in (("v2_ref", v2, 1e-9), ("v3_ref", v3, 1e-9), ("dec_ref", dec, 1e-10)):
        check(abs(got[key] - want) < tol, f"{key} {got[key]!r}, expected {want!r}")
    for key, want in (("ra_ref", ra), ("roll_ref", roll)):
        check(abs((got[key] - want + 180) % 360 - 180) < 1e-9, f"{key} {got[key]!r}, expected {want!r}")
    # a transform built anew from the keywords
    ny, nx = p["shape"]
    x, y = np.array([0.0, nx - 1, 0, nx - 1, nx / 3]), np.array([0.0, 0, ny - 1, ny - 1, ny / 2])
    A = attitude(got["v2_ref"], got["v3_ref"], got["ra_ref"], got["dec_ref"], got["roll_ref"])
    if not case["va"] and not case["fix"]:
        r, d = w(x, y)
        err = np.abs(vec(r, d) - pix2sky(p, A, x, y)).max()
        check(err < 1e-13, f"positions from the keywords {got} are off by {err / np.pi * 180 * 3600:.3g} arcsec")
    sky = w.get_transform(w.available_frames[-2], "world")
    r, d = sky(got["v2_ref"], got["v3_ref"])
    err = np.abs(vec(float(r), float(d)) - vec(got["ra_ref"], got["dec_ref"])).max()
    check(err < 1e-13, f"({got['v2_ref']}, {got['v3_ref']}) is at ({float(r)}, {float(d)}), keywords say ({got['ra_ref']}, {got['dec_ref']})")
    return case["va"] or bool(case["fix"]), ["va" if case["va"] else "plain", f"{len(case['fix'])} corrections"]


COMPONENTS = [Component("keywords", pointings, run, quick=600, thorough=20000, shards=4)]

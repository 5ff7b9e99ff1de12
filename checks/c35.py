import math, os, tempfile
from unittest import mock
import numpy as np
from hypothesis import strategies as st
from vlib.core import Component, check, fail
from vlib.v23 import angles, attitude, build, pix2sky, sky2pix, tilt
from vlib.wcsgen import radec, vec

RULE = ("random pointings of a common star field by several exposures of one or two detectors, attitudes displaced by shifts and twists within the search limits, fit "
        "geometries, orders and reference catalogues; sources measured with the true attitude, transforms built with the displaced one, aligned positions against "
        "the true geometry; and size limits, settings and failures; non-trivial when an exposure is displaced; distinct by content")
SIDE, SCALE = 400, 0.1


@st.composite
def fields(draw):
    f = lambda lo, hi: lo + draw(st.integers(0, 1 << 16)) / float(1 << 16) * (hi - lo)
    v2, v3 = f(-300, 300), f(-600, -100)
    mode = draw(st.sampled_from(["relative", "relative", "absolute", "both", "few", "chain"]))
    geom = draw(st.sampled_from(["shift", "rshift", "rshift", "rscale", "general"]))
    two = draw(st.booleans()) and mode != "chain"
    dets = []
    for k in range(2 if two else 1):
        dets.append({"shape": [SIDE, SIDE], "scale": SCALE * f(0.95, 1.05), "angle": draw(st.sampled_from([0.0, 4.0, 90.0, -123.0])) + f(-1, 1), "flip": draw(st.sampled_from([-1, 1])),
                     "crpix": [(SIDE - 1) / 2, (SIDE - 1) / 2], "at": [v2 + (k * 46 - 23 * (two)) * 1.0, v3 + f(-2, 2)]})
    exps = []
    for k in range(draw(st.integers(2, 4))):
        d = 3.0 if mode != "chain" else 1.0
        exps.append({"dither": [f(-d, d) + (k * 17.0 if mode == "chain" else 0), f(-d, d)], "turn": f(-2, 2) if mode != "chain" else 0.0,
                     "shift": [f(-0.7, 0.7), f(-0.7, 0.7)], "twist": f(-0.1, 0.1) if geom != "shift" else 0.0})
    if mode == "absolute":      # a common error of all exposures
        for e in exps:
            e["shift"], e["twist"] = exps[0]["shift"], exps[0]["twist"]
    n = 8
    return {"v2": v2, "v3": v3, "ra": draw(st.sampled_from([0.0, 359.9999, 80.0, f(0, 360)])), "dec": draw(st.sampled_from([0.0, 60.0, -75.0, 88.0, f(-85, 85)])),
            "roll": f(-180, 180), "mode": mode, "geom": geom, "dets": dets, "exps": exps, "jitter": [[f(-1, 1), f(-1, 1)] for _ in range(n * 2)],
            "web": draw(st.booleans()), "minobj": draw(st.sampled_from([5, 10, 15])) if mode != "chain" else 5, "hist": True, "rows": draw(st.integers(0, 1 << 20)),
            "margin": draw(st.booleans()) and mode != "chain"}


def sky_stars(case, A0):
    """Stars on a jittered grid in the V frame (separations above 3.5 arcsec), as unit vectors."""
    out = []
    step = 6.5
    j = case["jitter"]
    x0 = -52.0 if len(case["dets"]) == 2 or case["mode"] == "chain" else -33.0
    x1 = 52.0 if case["mode"] != "chain" else 100.0
    if len(case["dets"]) == 1 and case["mode"] != "chain":
        x1 = 33.0
    k = 0
    p = {"scale": 1.0, "angle": 0.0, "flip": 1, "crpix": [0.0, 0.0], "at": [case["v2"], case["v3"]]}
    for x in np.arange(x0, x1, step):
        for y in np.arange(-33.0, 33.0, step):
            a, b = j[k % len(j)], j[(k * 7 + 3) % len(j)]
            out.append((x + 1.5 * (0.6 * a[0] + 0.4 * b[1]), y + 1.5 * (0.6 * a[1] + 0.4 * b[0])))
            k += 1
    v = np.array(out)
    return pix2sky(p, A0, v[:, 0], v[:, 1])


def shuffle(n, seed):
    """A permutation that is a plain function of the case."""
    return sorted(range(n), key=lambda k: (k * 2654435761 + seed * 40503) % 1000003)


def scene(case):
    from astropy.table import Table
    from stcal.tweakreg.tweakreg import construct_wcs_corrector
    v2, v3 = case["v2"], case["v3"]
    A0 = attitude(v2, v3, case["ra"], case["dec"], case["roll"])
    stars = sky_stars(case, A0)
    seen, cs, truth = [], [], []
    for g, e in enumerate(case["exps"]):
        At = tilt(A0, v2, v3, e["dither"][0], e["dither"][1], e["turn"])
        # the displacement follows the sky axes of the first pointing, so that a common one is common
        U = tilt(A0, v2, v3, e["shift"][0], e["shift"][1], e["twist"]) @ A0.T
        Ab = U @ At
        for d, p in enumerate(case["dets"]):
            x, y = sky2pix(p, At, stars)
            m = 0 if not case["margin"] else 30
            on = np.flatnonzero((x > -0.5 + m) & (x < SIDE - 0.5 - m) & (y > -0.5 + m) & (y < SIDE - 0.5 - m))
            if case["mode"] == "few" and g == len(case["exps"]) - 1:
                on = on[: max(1, case["minobj"] // len(case["dets"]) - 2)]
            on = on[shuffle(len(on), case["rows"] + 17 * g + d)]
            # sources off the image are in the measured catalogue, too, and have to be left out
            t = Table({"x": np.concatenate([x[on], [-30.0, SIDE + 20.0]]), "y": np.concatenate([y[on], [10.0, 20.0]]), "id": np.concatenate([on, [-1, -2]])}, meta={"name": f"e{g}d{d}"})
            w = build(p, v2, v3, *angles(Ab, v2, v3))
            c = construct_wcs_corrector(w, {"roll_ref": angles(Ab, v2, v3)[2], "v2_ref": v2, "v3_ref": v3}, t, f"group {g}")
            check(sorted(c.meta["catalog"]["id"]) == sorted(on), "sources on the image were dropped or sources off the image kept")
            check(c.meta["name"] == f"e{g}d{d}" and c.meta["group_id"] == f"group {g}" and c.original_wcs is not None, f"meta data of the corrector {c.meta['name']}, {c.meta['group_id']}")
            check(dict(c._wcsinfo if hasattr(c, "_wcsinfo") else c.wcsinfo) == {"roll_ref": angles(Ab, v2, v3)[2], "v2_ref": v2, "v3_ref": v3}, "reference angles of the corrector")
            cs.append(c)
            truth.append((At, p, g))
            seen.append(set(int(k) for k in on))
    return A0, stars, cs, truth, seen


def positions(c, ids, x, y):
    r, d = c.wcs(x, y, with_bounding_box=False)
    return vec(np.asarray(r), np.asarray(d))


GX, GY = np.meshgrid(np.linspace(0, SIDE - 1, 5), np.linspace(0, SIDE - 1, 5))


def run(case):
    from stcal.tweakreg import tweakreg as T
    from stcal.tweakreg.astrometric_utils import GSSS_CATALOGS
    A0, stars, cs, truth, seen = scene(case)
    mode = case["mode"]
    before = [c.wcs(GX, GY, with_bounding_box=False) for c in cs]
    status = lambda c: c.meta.get("fit_info", {}).get("status", "none")
    common = dict(fitgeometry=case["geom"], minobj=case["minobj"])
    tol = 3e-4 * math.pi / 180 / 3600      # 0.003 pixels
    if mode != "absolute":
        out = T.relative_align(cs, expand_refcat=mode == "chain", enforce_user_order=False, **common)
        check(out is cs or list(out) == cs, "other correctors are returned")
        ref = [k for k, c in enumerate(cs) if status(c) == "REFERENCE"]
        check(ref and len({truth[k][2] for k in ref}) == 1 and len(ref) == len(case["dets"]), f"reference exposures {ref}")
        # the frame of the reference exposure: its displaced attitude
        g = truth[ref[0]][2]
        few = {k for k in range(len(cs)) if mode == "few" and truth[k][2] == len(case["exps"]) - 1}
        for k, c in enumerate(cs):
            now = c.wcs(GX, GY, with_bounding_box=False)
            same = np.array_equal(now[0], before[k][0]) and np.array_equal(now[1], before[k][1])
            if k in ref:
                check(same, f"the reference exposure {k} moved")
                continue
            if few and (k in few or g == len(case["exps"]) - 1):
                check(status(c).startswith("FAILED"), f"exposure {k} has too few common sources, but its status is {status(c)}")
                check(same, f"exposure {k} moved though its status is {status(c)}")
                continue
            check(status(c) == "SUCCESS", f"status of exposure {k} is {status(c)}")
            # positions in exposure k have to agree with those in the reference exposure: undo the displacement of the reference
            e = case["exps"][g]
            U = tilt(A0, case["v2"], case["v3"], e["shift"][0], e["shift"][1], e["twist"]) @ A0.T
            At, p, _ = truth[k]
            want = pix2sky(p, At, GX, GY) @ U.T
            err = np.abs(vec(*now) - want).max()
            lim = tol if mode != "chain" else 3 * tol
            check(err < lim, f"exposure {k} is off by {err * 206264.8:.4g} arcsec from the reference exposure {ref[0]} (displaced by {case['exps'][truth[k][2]]['shift']} arcsec, fit {case['geom']})")
        if mode in ("relative", "few", "chain"):
            return True, [mode, case["geom"]]
    # absolute alignment
    ra, dec = radec(stars)
    ids = range(len(stars))

    def get(url, **kw):
        import urllib.parse
        q = dict(urllib.parse.parse_qsl(urllib.parse.urlparse(url).query))
        sep = np.linalg.norm(stars - vec(float(q["RA"]), float(q["DEC"])), axis=1)
        rows = ["objID,ra,dec,mag,epoch"] + [f"{k},{float(ra[k])!r},{float(dec[k])!r},{10 + k * 0.01},2016.0" for k in ids if sep[k] <= np.deg2rad(float(q["SR"]))]
        return type("R", (), {"content": ("\n".join(rows) + "\n").encode()})()
    n = len(cs)
    with tempfile.TemporaryDirectory() as tmp, mock.patch("requests.get", get):
        from astropy.table import Table
        kw = dict(abs_fitgeometry=case["geom"], abs_minobj=case["minobj"], abs_searchrad=3.0)
        if case["web"]:
            p = case["dets"][0]
            r0, d0 = (float(k) for k in cs[0].wcs(SIDE / 2, SIDE / 2, with_bounding_box=False))
            info = {"ra_ref": r0, "dec_ref": d0, "roll_ref": 0.0, "v3yangle": 0.0, "vparity": -1}
            T.absolute_align(cs, "GAIADR3", cs[0].wcs, info, None, save_abs_catalog=True, abs_catalog_output_dir=tmp, **kw)
            check(os.listdir(tmp) == ["fit_gaiadr3_ref.ecsv"], f"saved files {os.listdir(tmp)}")
        else:
            path = os.path.join(tmp, "stars.ecsv")
            Table({"RA": ra, "DEC": dec}).write(path, format="ascii.ecsv")
            T.absolute_align(cs, path, None, None, None, **kw)
    # tweakwcs adds the common shift to exposures corrected before as if it were not: a term of second order
    if mode == "both":
        tol += 6 * np.deg2rad(max(abs(e["twist"]) for e in case["exps"])) * max(np.hypot(*e["shift"]) for e in case["exps"]) * np.deg2rad(1 / 3600)
    for k, c in enumerate(cs):
        check(status(c) == "SUCCESS", f"status of exposure {k} is {status(c)}")
        check(c.meta["group_id"] == cs[0].meta["group_id"], "exposures are not aligned as one")
        At, p, _ = truth[k]
        err = np.abs(vec(*c.wcs(GX, GY, with_bounding_box=False)) - pix2sky(p, At, GX, GY)).max()
        check(err < 2 * tol, f"exposure {k} is off by {err * 206264.8:.4g} arcsec from the catalogue after {mode} alignment (fit {case['geom']})")
    return True, [mode, case["geom"], "web" if case["web"] else "file"]


# ---------------------------------------------------------------- limits and settings
@st.composite
def limits(draw):
    f = lambda lo, hi: lo + draw(st.integers(0, 1 << 16)) / float(1 << 16) * (hi - lo)
    tol = draw(st.sampled_from([0.2, 0.7, 1.0]))
    sep = draw(st.sampled_from([0.1, tol, 1.41 * tol, 1.42 * tol, 2.0 * tol, 3.0]))
    hist = draw(st.booleans())
    rad, xo, yo = draw(st.sampled_from([0.5, 2.0, 6.0])), draw(st.sampled_from([0.0, 1.0, -4.0])), draw(st.sampled_from([0.0, 2.0, -0.5]))
    top = 2 * ((rad if hist else max(abs(xo), abs(yo))) + tol)
    a = f(0, 2 * np.pi)
    move = top * draw(st.sampled_from([0.0, 0.5, 0.98, 1.02, 1.5, 5.0]))
    # a turn or a stretch about the reference point moves only some corners far
    kind = draw(st.sampled_from(["shift", "shift", "turn", "stretch"]))
    fit = {"minobj": draw(st.integers(1, 20)), "geom": draw(st.sampled_from(["shift", "rshift", "rscale", "general"])), "nclip": draw(st.sampled_from([0, 1, 3, 5])),
           "sigma": draw(st.sampled_from([2.0, 3.0, 4.5])), "accum": draw(st.booleans()), "order": draw(st.booleans()), "expand": draw(st.booleans())} if draw(st.booleans()) else None
    return {"tol": tol, "sep": sep, "hist": hist, "rad": rad, "xo": xo, "yo": yo, "move": [move * np.cos(a), move * np.sin(a)], "size": move, "top": top, "kind": kind, "fit": fit,
            "n": draw(st.integers(1, 3)), "which": draw(st.integers(0, 2)), "raise": draw(st.sampled_from([None] * 3 + ["few", "confusion", "other"])),
            "mode": draw(st.sampled_from(["relative", "relative", "absolute"])), "ra": draw(st.sampled_from([0.0, 200.0])), "dec": draw(st.sampled_from([0.0, -80.0]))}


def run_limits(case):
    from astropy.table import Table
    from stcal.tweakreg import tweakreg as T
    p = {"shape": [50, 60], "scale": 0.1, "angle": 0.0, "flip": -1, "crpix": [0.0, 0.0], "at": [10.0, -40.0]}
    cs = []
    for k in range(case["n"]):
        w = build(p, 10.0, -40.0, case["ra"], case["dec"], 20.0)
        cs.append(T.construct_wcs_corrector(w, {"roll_ref": 20.0, "v2_ref": 10.0, "v3_ref": -40.0}, Table({"x": [1.0, 5.0], "y": [2.0, 3.0]}), f"g{k}"))
    called = []

    class Other(Exception):
        pass

    def fake(correctors, **kw):
        called.append(kw)
        if case["raise"] == "few":
            raise ValueError("Too few input images (or groups of images) with non-empty catalogs.")
        if case["raise"] == "confusion":
            raise RuntimeError("Number of output coordinates exceeded allocation")
        if case["raise"] == "other":
            raise ValueError("something else")
        if case["kind"] == "shift":
            corr = {"shift": case["move"]}
        elif case["kind"] == "turn":
            t = 2 * np.arcsin(min(1.0, case["size"] / 7.77 / 2))
            corr = {"matrix": [[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]]}
        else:
            corr = {"matrix": [[1 + case["size"] / 5.95, 0.0], [0.0, 1.0]]}
        correctors[case["which"] % len(correctors)].set_correction(**corr)
    bad = case["sep"] <= math.sqrt(2) * case["tol"]
    before = [(c.wcs, dict(c.meta)) for c in cs]
    f = case["fit"]
    with tempfile.TemporaryDirectory() as tmp, mock.patch.object(T, "align_wcs", fake):
        path = os.path.join(tmp, "stars.ecsv")
        Table({"RA": np.arange(20.0), "DEC": np.arange(20.0)}).write(path, format="ascii.ecsv")
        err = None
        try:
            if case["mode"] == "relative":
                kw = dict(minobj=f["minobj"], fitgeometry=f["geom"], nclip=f["nclip"], sigma=f["sigma"], clip_accum=f["accum"], enforce_user_order=f["order"], expand_refcat=f["expand"]) if f else {}
                T.relative_align(cs, searchrad=case["rad"], separation=case["sep"], use2dhist=case["hist"], tolerance=case["tol"], xoffset=case["xo"], yoffset=case["yo"], **kw)
            else:
                kw = dict(abs_minobj=f["minobj"], abs_fitgeometry=f["geom"], abs_nclip=f["nclip"], abs_sigma=f["sigma"], clip_accum=f["accum"]) if f else {}
                T.absolute_align(cs, path, None, None, None, abs_searchrad=case["rad"], abs_separation=case["sep"], abs_use2dhist=case["hist"], abs_tolerance=case["tol"], **kw)
        except T.TweakregError as e:
            err = e
        except ValueError as e:
            check(case["raise"] == "other" and "something else" in str(e), f"ValueError {e}")
            return True, ["other error"]
    check(not (case["raise"] == "other" and not bad), "an unexpected error of the alignment was swallowed")
    if bad:
        check(err is not None and not called, f"separation {case['sep']} with tolerance {case['tol']} accepted")
        check(all(c.wcs is b[0] and c.meta == b[1] for c, b in zip(cs, before)), "something changed although the settings are invalid")
        return True, ["settings"]
    check(len(called) == 1, "alignment was not tried")
    # the settings reach the fit
    g = called[0]
    want = {"minobj": 15, "fitgeom": "rshift", "nclip": 3, "sigma": (3.0, "rmse"), "clip_accum": False} if not f else \
        {"minobj": f["minobj"], "fitgeom": f["geom"], "nclip": f["nclip"], "sigma": (f["sigma"], "rmse"), "clip_accum": f["accum"]}
    if case["mode"] == "relative":
        want.update(enforce_user_order=bool(f and f["order"]), expand_refcat=bool(f and f["expand"]))
    got = {k: g.get(k) for k in want}
    check(got == want, f"settings of the fit {got}, expected {want}")
    m = g["match"]
    xo, yo = (case["xo"], case["yo"]) if case["mode"] == "relative" else (0.0, 0.0)
    got = [getattr(m, k, None) for k in ("_searchrad", "_separation", "_use2dhist", "_tolerance", "_xoffset", "_yoffset")]
    check(got == [case["rad"], case["sep"], case["hist"], case["tol"], xo, yo], f"settings of the matching {got}")
    if case["raise"]:
        check(err is not None, f"failed alignment ({case['raise']}) is not reported")
        return True, ["failure"]
    if case["mode"] == "absolute":
        check(err is None, f"error {err}")
        return True, ["absolute"]
    size = 0.0
    for c in cs:
        (x1, x2), (y1, y2) = c.wcs.bounding_box
        x, y = np.array([x1, x1, x2, x2]), np.array([y1, y2, y1, y2])
        d = vec(*c.wcs(x, y, with_bounding_box=False)) - vec(*c.original_wcs(x, y, with_bounding_box=False))
        size = max(size, 2 * np.arcsin(np.linalg.norm(d, axis=1).max() / 2) * 180 / np.pi * 3600)
    if case["kind"] == "shift":
        check(abs(size - case["size"]) < 1e-3 * max(case["size"], 1e-3), f"a shift of {case['size']} moves the corners by {size}")
    if abs(size - case["top"]) < 1e-6:
        return False, ["at the limit"]
    large = size > case["top"]
    check((err is not None) == large, f"a correction of {size:.3f} arcsec ({case['kind']}), at most {case['top']:.3f}, is {'reported' if err else 'accepted'}")
    return case["size"] > 0, ["large" if large else "small", case["kind"]]


COMPONENTS = [Component("field", fields, run, quick=160, thorough=6000, shards=6, timeout=300), Component("limits", limits, run_limits, quick=700, thorough=8000, shards=2)]

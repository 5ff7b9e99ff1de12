import io, os, tempfile, urllib.parse
from unittest import mock
import numpy as np
from hypothesis import strategies as st
from vlib.core import Component, check, fail
from vlib.wcsgen import build, frames, p2w, radec, vec

RULE = ("random source tables (positions on, inside and outside bounding boxes; column names in any case, sky positions or RA/DEC, missing or doubled columns; "
        "magnitudes with ties and gaps; row orders; requested numbers), the web service replaced by an in-process one; against plain row-by-row filtering; "
        "non-trivial when rows are both kept and dropped, or a catalogue is converted or rejected; distinct by content")


# ---------------------------------------------------------------- bounding box
@st.composite
def boxes(draw):
    nx, ny = draw(st.integers(2, 40)), draw(st.integers(2, 40))
    box = draw(st.sampled_from([None, [[-0.5, nx - 0.5], [-0.5, ny - 0.5]], [[3.0, nx + 4.25], [1.5, ny + 2.0]], [[2.0, 2.5], [-4.0, 60.0]]]))
    edge = [0.0, -0.5, nx - 0.5, ny - 0.5, 3.0, 2.0, 2.5, 1.5, nx + 4.25, ny + 2.0]
    f = lambda: draw(st.sampled_from(edge)) if draw(st.booleans()) else draw(st.integers(-400, 5000)) / 100.0
    n = draw(st.integers(0, 15))
    nan = draw(st.integers(0, 40))
    return {"box": box, "x": [f() if k != nan else float("nan") for k in range(n)], "y": [f() for _ in range(n)], "model": draw(st.booleans())}


def run_box(case):
    from astropy.table import Table
    from stcal.tweakreg.tweakreg import filter_catalog_by_bounding_box
    n = len(case["x"])
    t = Table({"name": [f"s{k}" for k in range(n)], "x": np.array(case["x"], float), "flux": np.arange(n) * 1.5, "y": np.array(case["y"], float)}, meta={"name": "cat"})
    box = case["box"]
    arg = None if box is None else tuple(tuple(b) for b in box)
    if box is not None and case["model"]:
        arg = build({"shape": [9, 9], "crval": [1.0, 2.0], "crpix": [0, 0], "scale": 1e-5, "rot": 0.0, "flip": -1, "bend": 0.0, "bbox": box, "array_shape": False}).bounding_box
    out = filter_catalog_by_bounding_box(t, arg)
    want = [k for k in range(n) if box is None or (box[0][0] < case["x"][k] < box[0][1] and box[1][0] < case["y"][k] < box[1][1])]
    check(list(out["name"]) == [f"s{k}" for k in want], f"kept {list(out['name'])}, expected {want}")
    check(out.colnames == t.colnames and list(out["flux"]) == [1.5 * k for k in want] and out.meta.get("name") == "cat", "columns changed")
    check(len(t) == n, "the table given changed")
    return 0 < len(want) < n, ["no box" if box is None else "box"]


# ---------------------------------------------------------------- reference catalogue files
NAMES = {"ra": ["RA", "ra", "Ra", "rA"], "dec": ["DEC", "dec", "Dec"], "sky": ["sky_centroid", "SKY_CENTROID", "Sky_Centroid"]}


@st.composite
def files(draw):
    n = draw(st.integers(1, 12))
    f = lambda lo, hi: lo + draw(st.integers(0, 1 << 20)) / float(1 << 20) * (hi - lo)
    cols = {"ra": draw(st.sampled_from([0, 1, 1, 1, 2])), "dec": draw(st.sampled_from([0, 1, 1, 1, 2])), "sky": draw(st.sampled_from([0, 0, 1, 1, 2]))}
    if draw(st.booleans()):
        cols["ra"] = cols["dec"] = draw(st.sampled_from([0, 1]))
    names = []
    for kind, k in cols.items():
        names += [(kind, x) for x in draw(st.permutations(NAMES[kind]))[:k]]
    names.append(("other", "flux"))
    return {"names": [list(k) for k in draw(st.permutations(names))], "pos": [[f(0, 360), f(-90, 90)] for _ in range(n)], "sky": [[f(0, 360), f(-90, 90)] for _ in range(n)],
            "minobj": draw(st.integers(1, 14))}


class Corrector:
    def __init__(self):
        self.meta = {"group_id": "g", "name": "x", "catalog": None}


def run_file(case):
    from astropy.coordinates import SkyCoord
    from astropy.table import Table
    from stcal.tweakreg import tweakreg as T
    pos, sky = np.array(case["pos"]), np.array(case["sky"])
    t = Table()
    count = {"ra": 0, "dec": 0, "sky": 0, "other": 0}
    for kind, name in case["names"]:
        count[kind] += 1
        # a second column of a kind holds other numbers
        t[name] = {"ra": lambda: pos[:, 0] + count["ra"] - 1, "dec": lambda: pos[:, 1] / count["dec"], "other": lambda: np.arange(len(pos)) * 2.0,
                   "sky": lambda: SkyCoord(sky[:, 0], sky[:, 1] / max(1, count["sky"]), unit="deg")}[kind]()
    bad = count["ra"] > 1 or count["dec"] > 1 or (not (count["ra"] == 1 and count["dec"] == 1) and count["sky"] != 1)
    seen = {}
    cs = [Corrector(), Corrector()]

    def spy(correctors, refcat=None, **kw):
        seen.update(kw, cat=refcat, correctors=correctors)
    with tempfile.TemporaryDirectory() as tmp, mock.patch.object(T, "align_wcs", spy):
        path = os.path.join(tmp, "ref.ecsv")
        t.write(path, format="ascii.ecsv")
        try:
            T.absolute_align(cs, path, None, None, None, abs_minobj=case["minobj"])
        except KeyError as e:
            # two sky positions beside a complete RA and DEC may be ignored or rejected
            check(bad or count["sky"] > 1, f"KeyError {e} for columns {t.colnames}")
            check(not seen and all(c.meta["group_id"] == "g" for c in cs), "something changed although the catalogue is invalid")
            return True, ["rejected"]
        except T.TweakregError as e:
            check(not bad and len(pos) < case["minobj"], f"error {e} with {len(pos)} sources and at least {case['minobj']} required")
            check(not seen and all(c.meta["group_id"] == "g" for c in cs), "something changed although there are too few sources")
            return True, ["too few"]
    check(not bad, f"columns {t.colnames} accepted")
    check(len(pos) >= case["minobj"], f"{len(pos)} sources accepted though {case['minobj']} are required")
    cat = seen["cat"]
    want = pos if count["ra"] == 1 and count["dec"] == 1 else sky
    check("RA" in cat.colnames and "DEC" in cat.colnames, f"columns {cat.colnames}")
    check(len(cat) == len(pos) and np.allclose((np.asarray(cat["RA"], float) - want[:, 0] + 180) % 360, 180, rtol=0, atol=1e-9) and np.allclose(np.asarray(cat["DEC"], float), want[:, 1], rtol=0, atol=1e-9),
          f"positions {list(cat['RA'])[:4]}, expected {want[:4, 0].tolist()}")
    check(np.allclose(cat["flux"], np.arange(len(pos)) * 2.0), "other columns changed")
    check(not [c for c in cat.colnames if c.lower() == "sky_centroid"], "two kinds of positions are left in the catalogue")
    return True, ["sky" if want is sky else "radec"]


# ---------------------------------------------------------------- web catalogues
@st.composite
def webs(draw):
    n = draw(st.integers(0, 14))
    p = draw(frames((draw(st.integers(2, 60)), draw(st.integers(2, 60)))))
    if p["bbox"] is None:
        p["bbox"] = [[-0.5, p["shape"][1] - 0.5], [-0.5, p["shape"][0] - 0.5]]
    mags = [draw(st.one_of(st.none(), st.integers(500, 2200).map(lambda k: k / 100), st.integers(10, 12).map(float))) for _ in range(n)]
    if draw(st.booleans()):
        mags = [12.5 if m is None else m for m in mags]
    motion = [draw(st.sampled_from(["both", "both", "both", "pmra", "pmdec", "none"])) for _ in range(n)]
    if draw(st.integers(0, 3)) == 0:
        motion = ["both"] * n
    return {"p": p, "mags": mags, "motion": motion, "order": list(draw(st.permutations(range(n)))), "epoch": draw(st.sampled_from([None, 2016.0, 2024.5])),
            "num": draw(st.sampled_from([None, 0, 1, 2, 5, 20, -1, -3, -20])), "write": draw(st.sampled_from([None, None, "ascii.ecsv", "ascii.csv", ""])), "again": draw(st.booleans()), "cat": draw(st.sampled_from(["GAIADR3", "GAIADR2", "GAIAREFCAT"]))}


class Reply:
    def __init__(self, text):
        self.content = text.encode()


def run_web(case):
    from astropy.table import Table
    from stcal.tweakreg.astrometric_utils import create_astrometric_catalog
    n = len(case["mags"])
    lines = ["# a comment", "objID,ra,dec,mag,epoch,pmra,pmdec,note"]
    for k in case["order"]:
        m = case["mags"][k]
        pm = case["motion"][k]
        lines.append(f"{1000 + k},{10 + k * 0.25!r},{-20 + k * 0.125!r},{'' if m is None else repr(m)},2016.0,{'1.5' if pm in ('both', 'pmra') else ''},{'-2.5' if pm in ('both', 'pmdec') else ''},n{k}")
    asked = []

    def get(url, **kw):
        asked.append((url, kw))
        return Reply("\n".join(lines) + "\n" if n else "No data records were found\n")
    p = case["p"]
    with tempfile.TemporaryDirectory() as tmp, mock.patch("requests.get", get):
        out = os.path.join(tmp, "cat.ecsv") if case["write"] is not None else None
        kw = {"table_format": case["write"]} if case["write"] else {}
        if out and case["again"]:       # the catalogue of an earlier run is replaced
            Table({"objID": [1, 2, 3]}).write(out, format=case["write"] or "ascii.ecsv")
        t = create_astrometric_catalog(build(p), case["epoch"], catalog=case["cat"], output=out, num_sources=case["num"], timeout=7.0, **kw)
        saved = Table.read(out, format=case["write"] or "ascii.ecsv") if out and os.path.exists(out) else None
    # the query covers the footprint
    check(len(asked) == 1 and asked[0][1].get("timeout") == 7.0, f"queries {asked}")
    q = dict(urllib.parse.parse_qsl(urllib.parse.urlparse(asked[0][0]).query))
    check({"RA", "DEC", "SR", "FORMAT", "CAT"} <= set(q), f"query {q}")
    check(q.get("CAT") == case["cat"] and ("EPOCH" in q) == (case["epoch"] is not None) and float(q.get("EPOCH", 0)) == (case["epoch"] or 0), f"query {q}")
    (x1, x2), (y1, y2) = p["bbox"]
    v = p2w(p, np.array([x1, x1, x2, x2]), np.array([y1, y2, y1, y2]))
    c = vec(float(q["RA"]), float(q["DEC"]))
    sep = np.rad2deg(2 * np.arcsin(np.linalg.norm(v - c, axis=1) / 2))
    check(abs(float(q["SR"]) - sep.max()) < 1e-9, f"cone of {q['SR']} deg; the farthest corner is at {sep.max()} deg")
    # rows
    rows = [k for k in range(n) if case["epoch"] is None or case["motion"][k] == "both" or not any(case["motion"][j] != "both" for j in range(n))]
    if case["epoch"] is not None and n and all(case["motion"][j] not in ("both", "pmra") for j in range(n)):
        return True, ["column without data"]      # a wholly empty column is not told apart from text
    if case["epoch"] is not None and n and all(case["motion"][j] not in ("both", "pmdec") for j in range(n)):
        return True, ["column without data"]
    got = [int(k) - 1000 for k in t["objID"]] if len(t) else []
    check(len(set(got)) == len(got) and set(got) <= set(rows), f"rows {got}, expected some of {rows}")
    num = case["num"]
    size = len(rows) if num is None else min(len(rows), abs(num))
    check(len(got) == size, f"{len(got)} sources of {len(rows)}, requested {num}")
    mags = {k: case["mags"][k] for k in rows}
    if None not in mags.values():
        order = sorted(mags.values(), reverse=True)
        want = order if num is None else order[:size] if num < 0 else order[len(order) - size:]
        check([mags[k] for k in got] == want, f"magnitudes {[mags[k] for k in got]}, expected {want} (requested {num})")
    elif num is not None and num > 0 and sum(m is not None for m in mags.values()) >= num and any(m is not None for m in mags.values()):
        order = sorted((m for m in mags.values() if m is not None), reverse=True)
        check([mags[k] for k in got] == order[-num:], f"magnitudes {[mags[k] for k in got]}, expected {order[-num:]} (requested {num})")
    for row, k in enumerate(got):
        check(abs(float(t["RA"][row]) - (10 + k * 0.25)) < 1e-12 and abs(float(t["DEC"][row]) - (-20 + k * 0.125)) < 1e-12, f"position of source {k}")
    if len(rows):
        check(t.colnames == ["RA", "DEC", "mag", "objID", "epoch"] and t.meta.get("catalog") == case["cat"], f"columns {t.colnames}, {t.meta}")
    if out and len(rows):
        check(saved is not None and [int(k) - 1000 for k in saved["objID"]] == got, "the saved catalogue differs")
    return 0 < len(got) < n, ["epoch" if case["epoch"] else "no epoch", f"num {0 if num is None else (num > 0) - (num < 0)}"]


# ---------------------------------------------------------------- failures of the web service
@st.composite
def troubles(draw):
    p = draw(frames((draw(st.integers(20, 60)), draw(st.integers(20, 60))), bend=False))
    p["bbox"] = [[-0.5, p["shape"][1] - 0.5], [-0.5, p["shape"][0] - 0.5]]
    return {"p": p, "error": draw(st.sampled_from(["ConnectionError", "Timeout", "ReadTimeout", "ConnectTimeout", "TooManyRedirects", "InvalidURL", "ChunkedEncodingError", "SSLError"])),
            "how": draw(st.sampled_from(["catalog", "create", "align"])), "epoch": draw(st.sampled_from([None, 2016.5])), "old": draw(st.booleans())}


def run_trouble(case):
    import requests
    from astropy.table import Table
    from stcal.tweakreg import astrometric_utils as A, tweakreg as T
    err = getattr(requests.exceptions, case["error"])
    kind = next(k for k in (requests.exceptions.ConnectionError, requests.exceptions.Timeout, requests.exceptions.RequestException) if issubclass(err, k))
    calls = []

    def get(url, **kw):
        calls.append(url)
        raise err("out of order")
    p = case["p"]
    w = build(p)
    cs = [Corrector(), Corrector()]
    with tempfile.TemporaryDirectory() as tmp, mock.patch("requests.get", get), mock.patch.object(T, "align_wcs", lambda *a, **k: check(False, "aligned without a catalogue")):
        out = os.path.join(tmp, "cat.ecsv")
        if case["old"]:
            Table({"objID": [1, 2, 3]}).write(out, format="ascii.ecsv")
        try:
            if case["how"] == "catalog":
                A.get_catalog(10.0, -20.0, case["epoch"], 0.1)
            elif case["how"] == "create":
                A.create_astrometric_catalog(w, case["epoch"], output=out)
            else:
                cs[0].wcs = cs[1].wcs = w
                r0, d0 = (float(k) for k in w(0.5, 0.5))
                T.absolute_align(cs, "GAIADR3", w, {"ra_ref": r0, "dec_ref": d0, "roll_ref": 10.0, "v3yangle": 3.0, "vparity": -1}, case["epoch"])
        except requests.exceptions.RequestException as e:
            check(isinstance(e, kind), f"{type(e).__name__} for a {case['error']}")
        else:
            check(False, f"a {case['error']} of the service went unnoticed")
        check(os.path.exists(out) == case["old"] and (not case["old"] or len(Table.read(out)) == 3), "the saved catalogue changed")
    check(len(calls) == 1, f"{len(calls)} queries")
    check(all(c.meta == {"group_id": "g", "name": "x", "catalog": None} for c in cs), "an image changed although there is no catalogue")
    return True, [case["error"], case["how"]]


# ---------------------------------------------------------------- the catalogue requested for an absolute alignment
@st.composite
def covers(draw):
    f = lambda lo, hi: lo + draw(st.integers(0, 1 << 16)) / float(1 << 16) * (hi - lo)
    n = draw(st.integers(1, 6))
    span = draw(st.sampled_from([3.0, 30.0, 150.0]))
    return {"det": {"shape": [draw(st.integers(20, 300)), draw(st.integers(20, 300))], "scale": 0.1, "angle": f(-180, 180), "flip": draw(st.sampled_from([-1, 1])), "crpix": [f(0, 100), f(0, 100)],
                    "at": [f(-200, 200), f(-500, -100)]}, "ra": draw(st.sampled_from([0.0, 359.999, f(0, 360)])), "dec": draw(st.sampled_from([0.0, 70.0, f(-75, 75)])), "roll": f(-180, 180),
            "exps": [{"dither": [f(-span, span), f(-span, span)], "turn": f(-90, 90), "fix": draw(st.sampled_from([None, None, [f(-8, 8), f(-8, 8)]])), "va": draw(st.booleans())} for _ in range(n)],
            "ref": draw(st.integers(0, n - 1)), "name": draw(st.sampled_from(["GAIADR3", "gaiadr2", " GaiaDR1 ", "gaiarefcat"])), "save": draw(st.sampled_from([None, "dir", "here"])),
            "epoch": draw(st.sampled_from([None, 2020.5])), "timeout": draw(st.sampled_from([None, 3.0])), "rows": draw(st.integers(15, 30)), "seed": draw(st.integers(0, 99)),
            "again": draw(st.booleans())}


def run_cover(case):
    from astropy.table import Table
    from stcal.tweakreg import tweakreg as T
    from stcal.tweakreg.astrometric_utils import TIMEOUT
    from vlib import v23
    p = case["det"]
    v2, v3 = p["at"]
    A0 = v23.attitude(v2, v3, case["ra"], case["dec"], case["roll"])
    cs = []
    for k, e in enumerate(case["exps"]):
        a = v23.angles(v23.tilt(A0, v2, v3, e["dither"][0], e["dither"][1], e["turn"]), v2, v3)
        c = T.construct_wcs_corrector(v23.build(p, v2, v3, *a, va=e["va"]), {"roll_ref": a[2], "v2_ref": v2, "v3_ref": v3}, Table({"x": [1.0, 5.0], "y": [2.0, 3.0]}), f"g{k}")
        if e["fix"]:
            c.set_correction(shift=e["fix"])
        cs.append(c)
    n = case["rows"]
    lines = ["objID,ra,dec,mag,epoch,pmra,pmdec"] + [f"{k},{10 + k / 8},{k / 16 - 1},{10 + (k * 7 + case['seed']) % 31 / 4},2016.0,1.5,2.5" for k in range(n)]
    asked, seen = [], {}

    def get(url, **kw):
        asked.append((url, kw))
        return Reply("\n".join(lines) + "\n")

    def spy(correctors, refcat=None, **kw):
        seen.update(kw, cat=refcat, correctors=correctors)
    ref = cs[case["ref"]].wcs
    r0, d0 = (float(k) for k in ref(1.0, 1.0))
    info = {"ra_ref": r0, "dec_ref": d0, "roll_ref": 10.0, "v3yangle": 3.0, "vparity": -1}
    kw = {} if case["timeout"] is None else {"timeout": case["timeout"]}
    old = os.getcwd()
    with tempfile.TemporaryDirectory() as tmp, mock.patch("requests.get", get), mock.patch.object(T, "align_wcs", spy):
        os.mkdir(os.path.join(tmp, "sub"))
        os.chdir(tmp)
        try:
            where = os.path.join(tmp, "sub") if case["save"] == "dir" else tmp
            name = f"fit_{case['name'].strip().lower()}_ref.ecsv"
            if case["save"] and case["again"]:
                Table({"objID": [1, 2]}).write(os.path.join(where, name), format="ascii.ecsv")
            T.absolute_align(cs, case["name"], ref, info, case["epoch"], save_abs_catalog=case["save"] is not None, abs_catalog_output_dir=where if case["save"] == "dir" else None, **kw)
            files = sorted(os.path.relpath(os.path.join(d, f), tmp) for d, _, fs in os.walk(tmp) for f in fs)
            want = [] if case["save"] is None else [os.path.relpath(os.path.join(where, name), tmp)]
            check(files == want, f"files written: {files}, expected {want}")
            saved = Table.read(os.path.join(where, name)) if want else None
        finally:
            os.chdir(old)
    check(len(asked) == 1 and asked[0][1].get("timeout") == (case["timeout"] or TIMEOUT), f"queries {asked}")
    q = dict(urllib.parse.parse_qsl(urllib.parse.urlparse(asked[0][0]).query))
    check({"RA", "DEC", "SR", "FORMAT", "CAT"} <= set(q) and q["CAT"] == case["name"].strip().upper(), f"query {q}")
    check(("EPOCH" in q) == (case["epoch"] is not None) and float(q.get("EPOCH", 0)) == (case["epoch"] or 0), f"query {q}")
    corners = []
    ny, nx = p["shape"]
    x, y = np.array([-0.5, -0.5, nx - 0.5, nx - 0.5]), np.array([-0.5, ny - 0.5, -0.5, ny - 0.5])
    for c in cs:
        corners.append(vec(*c.wcs(x, y, with_bounding_box=False)))
    v = np.concatenate(corners)
    to = lambda d: 2 * np.arcsin(np.minimum(1, np.linalg.norm(d, axis=-1) / 2)) * 180 / np.pi
    sep = to(v - vec(float(q["RA"]), float(q["DEC"])))
    k = int(sep.argmax())
    px = p["scale"] / 3600
    check(sep[k] <= float(q["SR"]) + 1.5 * px, f"the aligned exposure {k // 4} reaches {sep[k] * 3600:.2f} arcsec from the centre of the query, whose radius is {float(q['SR']) * 3600:.2f}")
    size = to(v[:, None] - v[None]).max()
    check(float(q["SR"]) <= 0.75 * size + 3 * px, f"query of {float(q['SR']) * 3600:.2f} arcsec for exposures that span {size * 3600:.2f}")
    cat = seen["cat"]
    check(seen["correctors"] is cs or list(seen["correctors"]) == cs, "other correctors are aligned")
    check(sorted(int(k) for k in cat["objID"]) == list(range(n)), f"sources {list(cat['objID'])}")
    check(all(abs(float(r["RA"]) - (10 + int(r["objID"]) / 8)) < 1e-12 and abs(float(r["DEC"]) - (int(r["objID"]) / 16 - 1)) < 1e-12 for r in cat), "positions of the sources")
    check(cat.meta.get("name") == case["name"].strip().upper(), f"name {cat.meta}")
    if saved is not None:
        check(list(saved["objID"]) == list(cat["objID"]) and np.array_equal(saved["RA"], cat["RA"]) and np.array_equal(saved["DEC"], cat["DEC"]), "the saved catalogue differs")
    return len(cs) > 1, [f"{len(cs)} exposures", "corrected" if any(e["fix"] for e in case["exps"]) else "plain"]


COMPONENTS = [Component("box", boxes, run_box, quick=800, thorough=40000, shards=2), Component("file", files, run_file, quick=500, thorough=15000, shards=4),
              Component("web", webs, run_web, quick=600, thorough=20000, shards=4),
              Component("cover", covers, run_cover, quick=300, thorough=9000, shards=6),
              Component("trouble", troubles, run_trouble, quick=120, thorough=2000, shards=2)]

import numpy as np
from hypothesis import strategies as st
from vlib import cas22, darkref, jumpref, likely, linref, ramps, satref, wcsgen
from vlib.core import Component, check, fail
from vlib.gen import table, uniform

RULE = ("histories of two to six uses of the same reference data by different exposures, and of two to eight operations on the same coordinate systems (some of which fail), "
        "each compared with the result the same use has with fresh objects; non-trivial when something is used more than once and a later use has a result")


# ------------------------------------------------------------------ reference arrays
@st.composite
def repeated(draw, base, **kw):
    return {"case": draw(base(**kw)), "uses": [0] + draw(st.lists(st.integers(0, 1), min_size=1, max_size=4)), "factor": draw(st.sampled_from([0.5, 1.0, 1.25]))}


def other(case, factor, keys):
    """Another exposure: its pixels upside down and brighter or fainter, with the same reference data."""
    out = dict(case)
    for k in keys:
        v = case[k]
        if v is None:
            continue
        v = v[:, ::-1] if k in ("res", "dq") else v[..., ::-1, :]
        out[k] = (v * v.dtype.type(factor)).astype(v.dtype) if v.dtype.kind == "f" else v.copy()
    return out


def same(a, b):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a is b or a == b
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")


def reuse(c, step, keys, shared):
    cases = [c["case"], other(c["case"], c["factor"], keys)]
    fresh = {k: step(cases[k]) for k in sorted(set(c["uses"]))}
    keep = {k: (v.copy() if isinstance(v, np.ndarray) else [list(r) for r in v] if isinstance(v, list) and v and isinstance(v[0], list) else v)
            for k, v in c["case"].items() if k in shared}
    for i, k in enumerate(c["uses"]):
        got = step(dict(cases[k], shared=tuple(keep), **keep))
        check(len(got) == len(fresh[k]), "other number of products")
        for n, (a, b) in enumerate(zip(got, fresh[k])):
            if not same(a, b):
                a, b = np.asarray(a), np.asarray(b)
                bad = np.argwhere(~((a == b) | ((a != a) & (b != b))))[:1] if a.shape == b.shape else []
                at = tuple(int(v) for v in bad[0]) if len(bad) else None
                fail(f"product {n} of use {i + 1} of the reference data (exposures {c['uses']}): {a[at] if at is not None else a.shape} at {at}, "
                     f"with fresh reference data {b[at] if at is not None else b.shape}")
    done = any(x is not None and np.asarray(x).size for x in fresh[c["uses"][-1]])
    return bool(done), [f"{len(c['uses'])} uses"]


KEYS = ["slope", "dq", "var_poisson", "var_rnoise", "err"]


def products(out):
    return [None if part is None else np.asarray(part[k]) for part in out[:2] for k in KEYS]


def run_ols(c):
    return reuse(c, lambda k: products(ramps.call_ramp_fit(k)), ("data", "gdq"), ("rn", "gain"))


def run_likely(c):
    return reuse(c, lambda k: products(likely.call(k)[0]), ("data", "gdq"), ("rn", "gain"))


def run_cas(c):
    return reuse(c, cas22.call, ("res", "dq"), ("rn", "reads", "thr"))


def run_jump(c):
    return reuse(c, lambda k: jumpref.call(k)[:3], ("data", "gdq"), ("rn", "gain", "pattern"))


def run_lin(c):
    return reuse(c, linref.call, ("data", "gdq", "z"), ("lin", "ldq", "ilin", "satval", "pattern"))


def run_dark(c):
    def f(k):
        out, avg, _ = darkref.call(k)
        return np.asarray(out.data), np.asarray(out.groupdq), np.asarray(out.pixeldq), None if avg is None else np.asarray(avg.data)
    return reuse(c, f, ("sci", "gdq"), ("dark", "ddq"))


def run_sat(c):
    return reuse(c, lambda k: satref.call(k)[:-1], ("data", "gdq", "z"), ("thr", "sdq", "bias", "pattern"))


# ------------------------------------------------------------------ coordinate systems
@st.composite
def histories(draw):
    shape = (draw(st.integers(2, 12)), draw(st.integers(2, 12)))
    p = draw(wcsgen.frames(shape))
    q = wcsgen.pair(draw, p, (draw(st.integers(2, 12)), draw(st.integers(2, 12))), dither=4.0, scale=p["scale"] * draw(st.sampled_from([1.0, 0.5, 2.0])))
    ops = []
    for _ in range(draw(st.integers(2, 8))):
        kind = draw(st.sampled_from(["pixmap", "pixmap", "area", "scale", "fiducial", "region", "mosaic", "blot", "combine", "resample", "resample", "pixmap"]))
        ops.append({"op": kind, "a": draw(st.integers(0, 1)), "b": draw(st.integers(0, 1)), "flag": draw(st.booleans()), "n": draw(st.integers(0, 7)),
                    "box": draw(st.sampled_from(["to", "from", "both", "none", "nonsense"]))})
    return {"p": p, "q": q, "ops": ops, "image": uniform(draw, tuple(q["shape"]), 0.0, 100.0).astype(np.float32)}


def region(w, ny, nx):
    x, y = np.array([0.0, nx - 1, nx - 1, 0.0]), np.array([0.0, 0.0, ny - 1, ny - 1])
    ra, dec = w(x, y, with_bounding_box=False)
    return np.stack([ra, dec], axis=1)


def sample(w, p, box=True):
    ny, nx = p["shape"]
    y, x = np.mgrid[-1.0:ny + 1, -1.0:nx + 1]
    ra, dec = w(x, y, with_bounding_box=box)
    u, v = w.invert(ra, dec, with_bounding_box=box)
    return [np.asarray(k, float) for k in (ra, dec, u, v)]


def state(w, p):
    b = None if w.bounding_box is None else [tuple(float(v) for v in i) for i in w.bounding_box.bounding_box(order="F")]
    return [repr(b), repr(w.array_shape), repr(w.pixel_shape)] + sample(w, p) + sample(w, p, False)


def perform(op, ws, ps, image):
    """The result of an operation as a list of arrays, strings and numbers."""
    from stcal.alignment.resample_utils import combine_sregions
    from stcal.alignment.util import compute_fiducial, compute_s_region_imaging, compute_scale, wcs_from_sregions
    from stcal.outlier_detection.utils import gwcs_blot
    from stcal.resample import Resample
    from stcal.resample.utils import calc_pixmap, compute_mean_pixel_area
    a, b, pa, pb, n = ws[op["a"]], ws[op["b"]], ps[op["a"]], ps[op["b"]], op["n"]
    shape = tuple(pa["shape"]) if op["flag"] else None
    if op["op"] == "pixmap":
        return [np.asarray(calc_pixmap(a, b, shape=shape, disable_bbox=op["box"], stepsize=[1, 1, 2, 3, 1, 0, 5, 1][n], order=[1, 1, 1, 3][n % 4]))]
    if op["op"] == "area":
        return [compute_mean_pixel_area(a, shape=shape)]
    if op["op"] == "scale":
        return [float(compute_scale(a, tuple(pa["crval"]), pscale_ratio=[None, 0.5, 2.0][n % 3]))]
    if op["op"] == "fiducial":
        box = None if n % 2 else tuple((-0.5, s - 0.5) for s in pa["shape"][::-1])
        return [np.asarray(compute_fiducial([a, b][:1 + op["flag"]], bounding_box=box))]
    if op["op"] == "region":
        return [compute_s_region_imaging(a, shape=shape, center=bool(n % 2))]
    if op["op"] == "mosaic":
        info = {"ra_ref": pa["crval"][0], "dec_ref": pa["crval"][1], "roll_ref": 10.0, "v3yangle": -3.0, "vparity": -1}
        kw = [{}, {"pscale": pa["scale"]}, {"rotation": 20.0}, {"shape": (7, 9)}, {"crpix": (3.0, 2.0)}, {"pscale_ratio": 0.5}, {"shape": (3,)}, {"crval": (1.0, 2.0)}][n]
        w = wcs_from_sregions([region(w, *p["shape"]) for w, p in zip(ws, ps)], ref_wcs=a, ref_wcsinfo=info, **kw)
        return state(w, pa)
    if op["op"] == "blot":
        return [np.asarray(gwcs_blot(image.copy(), ws[1], tuple(pa["shape"]), a, fillval=-1.0, pixmap_stepsize=[1, 2][n % 2]))]
    if op["op"] == "combine":
        feet = [region(w, *p["shape"]) for w, p in zip(ws, ps)]
        return [combine_sregions(feet, a.forward_transform, intersect_footprint=region(b, *pb["shape"]) if op["flag"] else None)]
    data = np.arange(pa["shape"][0] * pa["shape"][1], dtype=np.float32).reshape(pa["shape"])
    out = {"wcs": b}
    if op["flag"]:
        out["pixel_scale"] = 1.0
    r = Resample(out, enable_var=False, compute_err=None, n_input_models=1, pixmap_stepsize=[1, 1, 2][n % 3])
    r.add_model({"data": data, "dq": np.zeros(data.shape, np.uint32), "filename": "f", "group_id": "g", "wcs": a, "exposure_time": 1.0, "start_time": 1.0, "end_time": 2.0,
                 "duration": 1.0, "measurement_time": 1.0, "pixelarea_steradians": None if n % 2 else 1e-12, "level": 0.0, "subtracted": False, "effective_exposure_time": 1.0,
                 "var_rnoise": None, "var_flat": None, "var_poisson": None, "err": None, "bunit_data": "Jy"})
    r.finalize()
    o = r.output_model
    return [np.asarray(o["data"]), np.asarray(o["wht"]), np.asarray(o["con"]), o.get("pixel_scale_ratio"), o.get("pixelarea_steradians")]


def attempt(op, ws, ps, image):
    try:
        return perform(op, ws, ps, image)
    except Exception as e:      # noqa: BLE001 - a rejected request also has to leave things as they are
        return [type(e).__name__, str(e)]


def run_wcs(case):
    ps = [case["p"], case["q"]]
    new = lambda: [wcsgen.build(p) for p in ps]
    ws = new()
    first = [state(w, p) for w, p in zip(ws, ps)]
    marked = False
    good = 0
    for i, op in enumerate(case["ops"]):
        want, got = attempt(op, new(), ps, case["image"]), attempt(op, ws, ps, case["image"])
        text = {k: v for k, v in op.items()}
        check(len(want) == len(got), lambda: f"operation {i + 1} {text}: {got}, on fresh coordinate systems {want}")
        for a, b in zip(got, want):
            check(same(a, b), lambda: f"operation {i + 1} {text} after {[o['op'] for o in case['ops'][:i]]}: {np.asarray(a)}, on fresh coordinate systems {np.asarray(b)}")
        k = op["a"]
        if op["op"] == "region" and ps[k]["bbox"] is None and ws[k].bounding_box is not None:
            # computing a region from a shape also attaches the bounding box of that shape to a transform without one
            ps[k] = dict(ps[k], bbox=[[-0.5, ps[k]["shape"][1] - 0.5], [-0.5, ps[k]["shape"][0] - 0.5]])
            first[k] = state(new()[k], ps[k])
            marked = True
        good += not isinstance(got[0], str) or got[0].startswith("POLYGON")
        for w, p, f, n in zip(ws, ps, first, "ab"):
            for a, b, what in zip(state(w, p), f, ["bounding box", "array shape", "pixel shape"] + 8 * ["coordinates"]):
                check(same(a, b), lambda: f"operation {i + 1} {text} changed the {what} of coordinate system {n} from {b} to {a}")
    return good > 1, sorted({o["op"] for o in case["ops"]}) + (["box attached"] if marked else [])


COMPONENTS = [
    Component("ols", lambda: repeated(ramps.ramp_cases, max_samples=400), run_ols, quick=900, thorough=15000, shards=3),
    Component("likely", lambda: repeated(likely.likely_cases, npix=6), run_likely, quick=160, thorough=3000, shards=4),
    Component("cas22", lambda: repeated(cas22.cas_cases, jumps=True), run_cas, quick=700, thorough=15000, shards=2),
    Component("jump", lambda: repeated(jumpref.jump_cases), run_jump, quick=600, thorough=10000, shards=4),
    Component("linearity", lambda: repeated(linref.lin_cases), run_lin, quick=500, thorough=10000, shards=2),
    Component("linearity-reads", lambda: repeated(linref.lin_cases, read=True), run_lin, quick=500, thorough=10000, shards=2),
    Component("dark", lambda: repeated(darkref.dark_cases), run_dark, quick=700, thorough=10000, shards=2),
    Component("saturation", lambda: repeated(satref.sat_cases), run_sat, quick=700, thorough=10000, shards=3),
    Component("coordinates", histories, run_wcs, quick=400, thorough=8000, shards=8),
]

"""Resampling on a common grid: exact linear coordinate systems, exposures that tile output pixels exactly, and a plain reference."""
import copy
import numpy as np
from hypothesis import strategies as st
from .gen import flagcube, table

STEP = 2.0 ** -12      # degrees per output pixel; all numbers stay exact
FLAGS = [1, 2, 4, 8, 3, 6, 12, 2048, 1024]
NAMES = {"DO_NOT_USE": 1, "SATURATED": 2, "JUMP_DET": 4, "DROPOUT": 8, "OUTLIER": 16, "UNRELIABLE": 1024, "DEAD": 2048}
ORIENT = [(1, 0, 0, 1), (-1, 0, 0, 1), (1, 0, 0, -1), (-1, 0, 0, -1), (0, 1, 1, 0), (0, -1, 1, 0), (0, 1, -1, 0), (0, -1, -1, 0)]


def spectral_wcs(shape, mat, off, bbox=None):
    """A slit image on the same grid: wavelength along x, sky along y."""
    from astropy import coordinates as coord
    from astropy import units as u
    from astropy.modeling import models as m
    from gwcs import WCS
    from gwcs import coordinate_frames as cf
    mat = np.asarray(mat, float)
    t = m.AffineTransformation2D(mat) | m.Shift(off[0]) & m.Shift(off[1])
    f = m.Mapping((1, 1, 0)) | (m.Scale(STEP) | m.Shift(10.0)) & (m.Scale(0.0) | m.Shift(10.0)) & (m.Scale(STEP) | m.Shift(1.0))
    f.inverse = m.Mapping((2, 0), n_inputs=3) | (m.Shift(-1.0) | m.Scale(1 / STEP)) & (m.Shift(-10.0) | m.Scale(1 / STEP))
    sky = cf.CelestialFrame(name="sky", axes_order=(0, 1), reference_frame=coord.ICRS(), unit=(u.deg, u.deg))
    lam = cf.SpectralFrame(name="lam", axes_order=(2,), unit=(u.micron,), axes_names=("wavelength",))
    w = WCS([(cf.Frame2D(name="detector", axes_order=(0, 1), unit=(u.pix, u.pix)), t | f), (cf.CompositeFrame([sky, lam], name="world"), None)])
    if bbox is not None:
        w.bounding_box = tuple(tuple(float(v) for v in b) for b in bbox)
    w.array_shape = tuple(shape)
    return w


def linear_wcs(shape, mat, off, bbox=None):
    from astropy import coordinates as coord
    from astropy import units as u
    from astropy.modeling import models as m
    from gwcs import WCS
    from gwcs import coordinate_frames as cf
    mat = np.asarray(mat, float)
    if mat[0, 1] == 0 and mat[1, 0] == 0:
        t = m.Scale(mat[0, 0]) & m.Scale(mat[1, 1])
    else:
        t = m.AffineTransformation2D(mat)
    t = t | m.Shift(off[0]) & m.Shift(off[1]) | m.Scale(STEP) & m.Scale(STEP) | m.Shift(10.0) & m.Shift(10.0)
    w = WCS([(cf.Frame2D(name="detector", axes_order=(0, 1), unit=(u.pix, u.pix)), t),
             (cf.CelestialFrame(name="world", reference_frame=coord.ICRS(), unit=(u.deg, u.deg)), None)])
    if bbox is not None:
        w.bounding_box = tuple(tuple(float(v) for v in b) for b in bbox)
    w.array_shape = tuple(shape)
    return w


@st.composite
def exposure(draw, out, k, var=False, simple=False):
    # Exposures lie inside the output image or clear of it: the drizzle package (2.2) loses rows of pixels, or crashes, for images that stick
    # out of the output along pixel edges.  It also needs at least 2x2 valid pixels.
    o = draw(st.sampled_from(ORIENT[:1] * 4 + ORIENT))
    if simple:
        o = ORIENT[0]
    m = np.array(o).reshape(2, 2)
    ext = [int(k * 2) if k > 1 else 2 if k == 1 else 1 for _ in range(2)]
    ext = [draw(st.integers(1, max(1, out[1 - i] // (2 if k > 1 else 1)))) * (2 if k > 1 else 1) for i in range(2)] if k != 1 else [draw(st.integers(2, min(5, out[1 - i]))) for i in range(2)]
    if k == 2:
        ext = [max(4, v) for v in ext]
    n = [int(v / k) for v in np.abs(m).T @ np.array(ext)]      # pixels along the exposure's own x and y
    s = (n[1], n[0])
    lo = [draw(st.integers(0, out[1 - i] - ext[i])) - 0.5 for i in range(2)]
    away = draw(st.sampled_from([0] * 14 + [30, -30]))
    lo[draw(st.integers(0, 1))] += away
    neg = m.sum(axis=1) < 0
    off = [float(lo[i] + ext[i] - k / 2 if neg[i] else lo[i] + k / 2) for i in range(2)]
    bad = draw(st.sampled_from([40, 0, 100]))
    e = {"data": table(draw, s, [1.0, 2.0, -3.0, 10.0, 0.0, 100.0, 0.5, 7.25, -40.0, 1e4]).astype(np.float32), "dq": flagcube(draw, s, FLAGS, bad).astype(np.uint32),
         "orient": list(o), "off": off, "group": draw(st.sampled_from(["a", "b", "c", "own"])),
         "level": draw(st.sampled_from([None, None, 0.0, 2.0, -1.5])), "subtracted": draw(st.booleans()), "bbox": None,
         "exp": draw(st.sampled_from([10.0, 1.0, 250.0, 3.5])), "meas": draw(st.sampled_from([8.0, None, 0.5, 240.0])), "dur": draw(st.sampled_from([12.0, 1.0, 300.0, None])),
         "start": draw(st.sampled_from([59000.0, 59000.5, 58999.25, 60000.0])), "len": draw(st.sampled_from([0.001, 0.25, 2.0])), "badval": draw(st.sampled_from([np.nan, 1e30, np.inf, 5.0]))}
    b = draw(st.sampled_from(["none", "none", "full", "inner", "outer"]))
    if b == "full":
        e["bbox"] = [[-0.5, s[1] - 0.5], [-0.5, s[0] - 0.5]]
    elif b == "inner":
        lo = lambda n: draw(st.integers(0, n - 2))
        x, y = lo(s[1]), lo(s[0])
        eps = draw(st.sampled_from([0.5, 0.0, 0.25]))
        e["bbox"] = [[x - eps, draw(st.integers(x + 1, s[1] - 1)) + eps + 0.01], [y - eps, draw(st.integers(y + 1, s[0] - 1)) + eps + 0.01]]
    elif b == "outer":
        e["bbox"] = [[-3.0, s[1] + 2.0], [-0.5, s[0] + 0.4]]
    vals = [1.0, 2.0, 0.25, 4.0, 10.0]
    if var:
        vals = vals * 2 + [0.0, np.nan, np.inf]
    for key in ("var_rnoise", "var_flat", "var_poisson", "var_sky"):
        kind = draw(st.sampled_from(["array"] * 8 + ["none", "shape"])) if var else "array"
        e[key] = table(draw, s, vals).astype(np.float32) if kind == "array" else None if kind == "none" else np.ones((s[0], s[1] + 1), np.float32)
    e["err"] = table(draw, s, [1.0, 2.0, 0.5, 3.0]).astype(np.float32)
    return e


@st.composite
def cases(draw, var=False, many=False):
    out = (draw(st.integers(2, 7)), draw(st.integers(2, 7)))
    k = 1 if many else draw(st.sampled_from([1, 1, 1, 0.5, 2]))
    if k == 2:
        out = (max(4, out[0]), max(4, out[1]))
    if many:
        out = (draw(st.integers(2, 4)), draw(st.integers(2, 4)))
        n = draw(st.sampled_from([31, 32, 33, 34, 63, 64, 65, 70]))
        pool = [draw(exposure(out, k, var)) for _ in range(7)]
        ex = [dict(pool[draw(st.integers(0, 6))]) for _ in range(n)]
    else:
        ex = [draw(exposure(out, k, var)) for _ in range(draw(st.integers(1, 5)))]
    first = {}
    for e in ex:      # images of one exposure group were taken at the same time
        if e["group"] != "own":
            f = first.setdefault(e["group"], e)
            e.update({k2: f[k2] for k2 in ("exp", "meas", "dur", "start", "len")})
    good = draw(st.sampled_from([0, 0, 1, 4, 6, 2048, None, 3]))
    return {"out": out, "k": k, "ex": ex, "good": good, "wt": draw(st.sampled_from(["ivm", "exptime", "ivm", "ivm-sky"])),
            "fill": draw(st.sampled_from([0.0, float("nan"), "INDEF", None, "5.5", -999.0])), "ctx": draw(st.sampled_from([True, True, True, False])),
            "nin": draw(st.sampled_from([None, 0, 3, 40])), "dq": draw(st.booleans()), "kernel": draw(st.sampled_from(["square", "square", "point", "turbo"] if k == 1 else ["square"])),
            "pixfrac": draw(st.sampled_from([1.0, 1.0, 0.5, 0.9])), "step": draw(st.sampled_from([1, 1, 2])) if k == 1 else 1,
            "err": draw(st.sampled_from(["from_var", "driz_err", None])), "evar": draw(st.sampled_from([True, True, False])), "first": draw(st.booleans()), "frame": draw(st.sampled_from(["array", "array", "array", "box"])), "mnemonics": draw(st.sampled_from([None, None, ", ", "+"])),
            "perm": draw(st.permutations(list(range(len(ex))))) if not many else list(range(len(ex)))[::-1]}


def model(case, e, i):
    """The input dictionary of exposure i."""
    s = e["data"].shape
    mat = np.array(e["orient"], float).reshape(2, 2) * case["k"]
    data = e["data"].copy()
    data[usable(case, e) == 0] = e["badval"]
    m = {"data": data, "dq": e["dq"].copy(), "filename": f"f{i}", "group_id": e["group"] if e["group"] != "own" else f"g{i}",
         "wcs": linear_wcs(s, mat, e["off"], e["bbox"]), "exposure_time": e["exp"], "start_time": e["start"], "end_time": e["start"] + e["len"], "duration": e["dur"],
         "measurement_time": e["meas"], "pixelarea_steradians": float(np.deg2rad(case["k"] * STEP) ** 2), "level": e["level"], "subtracted": e["subtracted"], "err": e["err"].copy()}
    for key in ("var_rnoise", "var_flat", "var_poisson", "var_sky"):
        m[key] = None if e[key] is None else e[key].copy()
    return m


def usable(case, e):
    ok = np.ones(e["dq"].shape, bool) if case["good"] is None else (e["dq"].astype(np.int64) & ~case["good"]) == 0
    if case["wt"] == "exptime":
        return np.where(ok, e["exp"] if e["meas"] is None else e["meas"], 0.0)
    v = e["var_rnoise"] if case["wt"] == "ivm" else e["var_sky"]
    if v is None or v.shape != e["data"].shape:
        return ok.astype(float)
    v = v.astype(float)
    return np.where(ok & (v > 0) & np.isfinite(v), 1 / np.where(v > 0, v, 1), 0.0)


def overlap(case, e):
    """(fraction of each input pixel that falls on each output pixel, open): arrays (ny, nx, my, mx); open marks pixels next to the edge of the
    bounding box, which the square kernel may leave out."""
    ny, nx = case["out"]
    s = e["data"].shape
    mat = np.array(e["orient"], float).reshape(2, 2) * case["k"]
    y, x = np.indices(s)
    cx = mat[0, 0] * x + mat[0, 1] * y + e["off"][0]
    cy = mat[1, 0] * x + mat[1, 1] * y + e["off"][1]
    valid = np.ones(s, bool)
    opened = np.zeros(s, bool)
    if e["bbox"] is not None:
        (x1, x2), (y1, y2) = e["bbox"]
        valid = (x >= x1) & (x <= x2) & (y >= y1) & (y <= y2)
        if case["kernel"] == "square" and not valid.all():
            p = np.pad(valid, 1, constant_values=True)
            full = np.min([p[1 + a:1 + a + s[0], 1 + b:1 + b + s[1]] for a in (-1, 0, 1) for b in (-1, 0, 1)], axis=0)
            opened = valid & ~full
    oy, ox = np.indices((ny, nx))[:, :, :, None, None]
    h = case["k"] * case["pixfrac"] / 2
    ax = np.clip(np.minimum(ox + 0.5, cx + h) - np.maximum(ox - 0.5, cx - h), 0, None)
    ay = np.clip(np.minimum(oy + 0.5, cy + h) - np.maximum(oy - 0.5, cy - h), 0, None)
    a = ax * ay / (2 * h) ** 2
    a[..., ~valid] = 0
    o = np.zeros(a.shape, bool)
    o[..., opened] = a[..., opened] > 0
    return a, o


def reference(case, order=None):
    n = len(case["ex"])
    order = list(range(n)) if order is None else order
    sh = tuple(case["out"])
    W, WD, used = np.zeros(sh), np.zeros(sh), np.zeros((n,) + sh, bool)
    WA, opn, dq, big = np.zeros(sh), np.zeros(sh, bool), np.zeros(sh, np.int64), np.zeros(sh)
    per = []
    for j, i in enumerate(order):
        e = case["ex"][i]
        a, o = overlap(case, e)
        w = usable(case, e)
        aw = a * w
        d = e["data"].astype(np.float32)
        if not e["subtracted"] and e["level"] is not None:
            d = d - np.float32(e["level"])
        d = d.astype(float)
        opn |= (o & (w > 0)).any(axis=(2, 3))
        W += aw.sum(axis=(2, 3))
        WD += (aw * d).sum(axis=(2, 3))
        big = np.maximum(big, np.max(np.where(aw > 0, np.abs(d), 0), axis=(2, 3)))
        WA += (aw * e["err"]).sum(axis=(2, 3))
        used[j] = (aw > 0).any(axis=(2, 3))
        dq |= np.bitwise_or.reduce(np.where(aw > 0, e["dq"].astype(np.int64), 0).reshape(sh + (-1,)), axis=2)
        per.append((i, aw))
    with np.errstate(all="ignore"):
        return {"wht": W, "data": WD / W, "err": WA / W, "used": used, "open": opn, "dq": dq, "big": big, "per": per}


def make(case, names=None, error_from=None, **kw):
    from stcal.resample import Resample
    if names is not None:
        class Resample(Resample):
            variance_array_names, error_from_variances = names, error_from
    good = case["good"]
    if good and case.get("mnemonics"):        # the same flags by their names
        good = case["mnemonics"].join(k for k, v in NAMES.items() if v & good)

        class Resample(Resample):
            dq_flag_name_map = NAMES
    args = dict(kernel=case["kernel"], pixfrac=case["pixfrac"], fillval=case["fill"], weight_type=case["wt"], good_bits=good, enable_ctx=case["ctx"],
                enable_var=False, compute_err=None, propagate_dq=case["dq"], pixmap_stepsize=case["step"])
    if case["nin"] is not None:
        args["n_input_models"] = max(len(case["ex"]), case["nin"])
    args.update(kw)
    wcs = linear_wcs(case["out"], np.eye(2), (0, 0))
    if case.get("frame") == "box":         # the size of the output follows from the bounding box of its coordinates
        ny, nx = case["out"]
        wcs = linear_wcs(case["out"], np.eye(2), (0, 0), bbox=((-0.5, nx - 0.5), (-0.5, ny - 0.5)))
        wcs.array_shape = None
    return Resample({"wcs": wcs, "pixel_scale": 3600.0 * STEP}, **args)


def fillvalue(f):
    return float("nan") if f in (None, "INDEF") else float(f)

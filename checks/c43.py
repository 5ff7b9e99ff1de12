import numpy as np
from hypothesis import strategies as st
from vlib import resref, wcsgen
from vlib.core import Component, check, close
from .c28 import frozen, unchanged
from .c29 import variances

RULE = ("random tangent-plane images (any sky position, rotation, parity, scale, distortion, bounding box), with undefined sky positions along their edges, and sets of "
        "exposures on an output grid with given, estimated or unusable scales, imaging or spectral, in several units; non-trivial when the area is judged on "
        "at least 3x3 pixels, or the scale ratio differs from 1")


# ------------------------------------------------------------------ areas
@st.composite
def images(draw):
    shape = (draw(st.integers(1, 45)), draw(st.integers(1, 45)))
    p = draw(wcsgen.frames(shape, scale=draw(st.sampled_from([1e-4, 1e-3, 1e-2, 3e-5]))))
    p["array_shape"] = draw(st.booleans())
    ny, nx = shape
    win = None
    if draw(st.booleans()):
        lim = lambda n: draw(st.sampled_from([0, 0, 1, 2, n // 5]))
        win = [lim(nx), nx - 1 - lim(nx), lim(ny), ny - 1 - lim(ny)]
    if p["bbox"] is None and draw(st.booleans()):
        x = sorted([draw(st.integers(-1, nx + 1)), draw(st.integers(-1, nx + 1))])
        y = sorted([draw(st.integers(-1, ny + 1)), draw(st.integers(-1, ny + 1))])
        p["bbox"] = [[x[0] - 0.5, x[1] + 0.5], [y[0] - 0.5, y[1] + 0.5]]
    return {"p": p, "win": win, "ask": draw(st.booleans()) or not p["array_shape"]}


def windowed(p, win):
    from astropy.modeling import Model
    from gwcs import WCS
    w = wcsgen.build(p)
    if win is None:
        return w

    class Window(Model):
        n_inputs = n_outputs = 2

        def evaluate(self, x, y):
            x, y = np.asarray(x, float), np.asarray(y, float)
            ok = (x >= win[0]) & (x <= win[1]) & (y >= win[2]) & (y <= win[3])
            return np.where(ok, x, np.nan), np.where(ok, y, np.nan)
    det, sky = w.pipeline
    n = WCS([(det.frame, Window() | det.transform), (sky.frame, None)])
    if p["bbox"] is not None:
        n.bounding_box = tuple(tuple(float(v) for v in b) for b in p["bbox"])
    n.array_shape = w.array_shape
    return n


def solid(v):
    def tri(a, b, c):
        n = np.einsum("...i,...i", a, np.cross(b - a, c - a))
        return 2 * np.arctan2(n, 1 + (a * b).sum(-1) + (b * c).sum(-1) + (c * a).sum(-1))
    a, b, c, d = v[:-1, :-1], v[:-1, 1:], v[1:, 1:], v[1:, :-1]
    return np.abs(tri(a, b, c) + tri(a, c, d))


def run_area(case):
    from stcal.resample.utils import compute_mean_pixel_area
    p, win = case["p"], case["win"]
    ny, nx = p["shape"]
    w = windowed(p, win)
    got = compute_mean_pixel_area(w, shape=(ny, nx)) if case["ask"] else compute_mean_pixel_area(w)
    box = [0, nx - 1, 0, ny - 1]
    exact = True
    if p["bbox"] is not None:
        (x1, x2), (y1, y2) = p["bbox"]
        exact = all(abs(v % 1 - 0.5) < 1e-9 for v in (x1, x2, y1, y2))
        box = [max(0, int(np.ceil(x1))), min(nx - 1, int(np.floor(x2))), max(0, int(np.ceil(y1))), min(ny - 1, int(np.floor(y2)))]
    wide = min(box[1] - box[0], box[3] - box[2])
    if win is not None:
        inner = [max(box[0], win[0]), min(box[1], win[1]), max(box[2], win[2]), min(box[3], win[3])]
        lost = sum(abs(a - b) for a, b in zip(inner, box))
        exact = exact and lost == 0
        box, wide = inner, min(inner[1] - inner[0], inner[3] - inner[2])
    else:
        lost = 0
    if wide < 1:
        check(got is None, f"area {got} of an image without area")
        return False, ["none"]
    y, x = np.mgrid[box[2]:box[3] + 1, box[0]:box[1] + 1].astype(float)
    s = solid(wcsgen.p2w(p, x, y))
    if got is None:
        check(not exact and wide < 3 + lost, f"no area found although {box} is usable")
        return False, ["small"]
    noise = lambda n: 3e-14 / (s.mean() * n) + 1e-5       # angles of the outline are rounded to about 1e-15
    if exact:
        # the outline has a corner at least every 15 pixels: the sagitta of a bent edge
        bend = abs(p["bend"]) * 8 ** 2 / max(1, wide)
        check(abs(got / s.mean() - 1) <= noise(s.size) + bend, f"mean pixel area {got}, expected {s.mean()}")
    else:
        n = max(1, (wide - lost - 2)) ** 2
        tol = noise(n) + abs(p["bend"]) * 8 ** 2 / max(1, wide - lost - 2)
        check(s.min() * (1 - tol) <= got <= s.max() * (1 + tol), f"mean pixel area {got}, all pixels have areas from {s.min()} to {s.max()}")
    return wide > 1, ["exact" if exact else "part", "undefined edge" if lost else "defined"]


# ------------------------------------------------------------------ scales of a mosaic
UNITS = {"Jy": True, "MJy": True, "mJy": True, "uJy": True, "erg / (s cm2 Hz)": True, "MJy/sr": False, "DN/s": False, "": False, "electron": False, None: False, "nonsense": False, "Jy / arcsec2": False}


@st.composite
def mosaics(draw):
    c = draw(resref.cases(var=draw(st.booleans())))
    c["kernel"] = draw(st.sampled_from(["square", "square", "point"])) if c["k"] == 1 else "square"
    c["names"] = draw(st.sampled_from(["default", "sky", "norn"]))
    c["given"] = draw(st.sampled_from([None, 1.0, 2.0, 0.5, 1.75]))         # output pixel scale over the true one
    c["ratio"] = draw(st.sampled_from([None, None, 0.5, 2.0, 1.25]))
    c["spectral"] = draw(st.sampled_from([False, False, True]))
    if c["spectral"]:
        c["given"] = c["given"] or 1.0
    c["areas"] = [draw(st.sampled_from(["true", "true", "half", "four", "none", "zero", "negative"])) for _ in c["ex"]]
    c["units"] = [draw(st.sampled_from(["Jy", "MJy/sr", *UNITS])) for _ in c["ex"]]
    return c


def area_of(case, e):
    """Mean pixel area of an exposure, None when it has no area."""
    s = e["data"].shape
    box = [0, s[1] - 1, 0, s[0] - 1]
    if e["bbox"] is not None:
        (x1, x2), (y1, y2) = e["bbox"]
        box = [max(0, int(np.ceil(x1))), min(s[1] - 1, int(np.floor(x2))), max(0, int(np.ceil(y1))), min(s[0] - 1, int(np.floor(y2)))]
    if box[1] <= box[0] or box[3] <= box[2]:
        return None
    return np.deg2rad(case["k"] * resref.STEP) ** 2 * np.cos(np.deg2rad(10.0))


def run_scales(case):
    from stcal.resample import Resample
    from .c29 import FROM, NAMES
    build = resref.spectral_wcs if case["spectral"] else resref.linear_wcs
    models, ratio, loose = [], case["ratio"], False
    rough = False
    true = 3600.0 * resref.STEP
    scale = None if case["given"] is None else true * case["given"]
    if scale is None:
        expect_scale, rough = true * np.sqrt(np.cos(np.deg2rad(10.0))), True
    else:
        expect_scale = scale
    for i, e in enumerate(case["ex"]):
        m = resref.model(case, e, i)
        if case["spectral"]:
            m["wcs"] = resref.spectral_wcs(e["data"].shape, np.array(e["orient"], float).reshape(2, 2) * case["k"], e["off"], e["bbox"])
        a = m["pixelarea_steradians"]
        m["pixelarea_steradians"] = {"true": a, "half": a / 4, "four": a * 4, "none": None, "zero": 0.0, "negative": -a}[case["areas"][i]]
        m["bunit_data"] = case["units"][i]
        models.append(m)
        if ratio is None and not case["spectral"]:
            use = m["pixelarea_steradians"]
            if use is None or use <= 0:
                use = area_of(case, e)
                rough = rough or use is not None
                if e["bbox"] is not None and use is not None:
                    # the code leaves out a pixel next to a bounding box edge that is not half way between pixels
                    w = e["bbox"]
                    if any(abs(v % 1 - 0.5) > 1e-9 for b in w for v in b):
                        loose = True
            if use is not None:
                ratio = expect_scale / (3600.0 * np.rad2deg(np.sqrt(use)))
    before = frozen(models)
    out = {"wcs": build(case["out"], np.eye(2), (0, 0))}
    if scale is not None:
        out["pixel_scale"] = scale
    if case["ratio"] is not None:
        out["pixel_scale_ratio"] = case["ratio"]

    class R(Resample):
        variance_array_names, error_from_variances = NAMES[case["names"]], FROM[case["names"]]
    r = R(out, kernel=case["kernel"], pixfrac=case["pixfrac"], fillval=case["fill"], weight_type=case["wt"], good_bits=case["good"], enable_ctx=False,
          enable_var=case["evar"], compute_err=case["err"])
    for m in models:
        r.add_model(m)
    r.finalize()
    o = r.output_model
    unchanged(models, before)
    if loose:
        return False, ["open"]
    tol = 3e-3 if rough else 1e-9
    check(abs(r.output_pixel_scale / expect_scale - 1) <= tol, f"output pixel scale {r.output_pixel_scale}, expected {expect_scale}")
    got = r.pixel_scale_ratio
    check((got is None) == (ratio is None) and (ratio is None or abs(got / ratio - 1) <= tol), f"pixel scale ratio {got}, expected {ratio}")
    check(o["pixel_scale_ratio"] == got, f"the output records the ratio {o['pixel_scale_ratio']}, not {got}")
    close(o["pixelarea_arcsecsq"], expect_scale ** 2, "output pixel area [arcsec2]", rtol=2 * tol)
    close(o["pixelarea_steradians"], np.deg2rad(expect_scale / 3600) ** 2, "output pixel area [sr]", rtol=2 * tol)
    check(o["kernel"] == case["kernel"] and o["pixfrac"] == case["pixfrac"] and o["weight_type"] == case["wt"], "recorded settings")
    q = 1.0 if got is None else float(got)
    sp = case["spectral"]
    # data in flux density are scaled by 1/ratio when spectral
    gain = [1.0] * len(models)
    if sp:
        gain = [1 / q if UNITS[case["units"][i]] and models[i]["pixelarea_steradians"] else 1.0 for i in range(len(models))]
    ref = resref.reference(case)
    m = ~ref["open"]
    used = ref["used"].any(axis=0)
    W, WD, WE = np.zeros(used.shape), np.zeros(used.shape), np.zeros(used.shape)
    big = np.zeros(used.shape)
    for i, aw in ref["per"]:
        e = case["ex"][i]
        d = e["data"].astype(np.float32)
        if not e["subtracted"] and e["level"] is not None:
            d = d - np.float32(e["level"])
        d = d.astype(float) * gain[i]
        W += aw.sum(axis=(2, 3))
        WD += (aw * d).sum(axis=(2, 3))
        WE += (aw * e["err"] * gain[i]).sum(axis=(2, 3))
        big = np.maximum(big, np.max(np.where(aw > 0, np.abs(d), 0), axis=(2, 3)))
    eps = 3e-6 * (len(models) + 4)
    with np.errstate(all="ignore"):
        close(o["data"], np.where(used, WD / W, 0), "data", rtol=eps, atol=eps * big, mask=m & used)
        close(o["wht"], W, "weight", rtol=eps, atol=1e-12, mask=m)
        err = WE / W
    scaled = dict(case, ex=[dict(e, **{k: e[k] * np.float32(gain[i]) ** 2 for k in ("var_rnoise", "var_flat", "var_poisson", "var_sky") if e[k] is not None and e[k].shape == e["data"].shape})
                            for i, e in enumerate(case["ex"])])
    want, count = variances(scaled, dict(ref, per=ref["per"]))
    f = (q if sp else 1 / q ** 2) / case["k"] ** 2
    big = 3e-5 * (len(models) + 2)
    if case["evar"] or case["err"] == "from_var":
        for key in NAMES[case["names"]]:
            close(o[key], want[key] * f, key, rtol=big, mask=m)
    if case["err"] == "driz_err":
        close(o["err"], np.where(used, err, 0) * (np.sqrt(q) if sp else 1 / q), "error", rtol=eps, mask=m & used)
    elif case["err"] == "from_var":
        comp = [want[k] * f for k in NAMES[case["names"]]]
        e = np.sqrt(np.nansum(comp, axis=0))
        e[np.all(np.isnan(comp), axis=0)] = np.nan
        close(o["err"], e, "error", rtol=big, mask=m)
    return abs(q - 1) > 1e-3 and bool(used.any()), ["spectral" if sp else "imaging", "given" if case["ratio"] else "none" if got is None else "derived", str(case["err"])]


COMPONENTS = [Component("area", images, run_area, quick=700, thorough=20000, shards=4),
              Component("scales", mosaics, run_scales, quick=400, thorough=15000, shards=6)]

import numpy as np
from hypothesis import strategies as st
from vlib import resref, wcsgen
from vlib.core import Component, check, close, equal, fail
from vlib.gen import table, uniform

RULE = ("sets of exposures whose pixels tile output pixels (shifts, mirrors, transposes, twice finer or coarser), with flags, weights, background levels, "
        "bounding boxes and unusable values in bad pixels, and general rotated exposures; non-trivial when some output pixel combines several input pixels")


def compare(o, case, ref, what):
    m = ~ref["open"]
    used = ref["used"].any(axis=0)
    eps = 3e-6 * (len(case["ex"]) + 4)
    close(o["wht"], ref["wht"], f"weight{what}", rtol=eps, atol=1e-12, mask=m)
    close(o["data"], np.where(used, ref["data"], 0), f"data{what}", rtol=eps, atol=eps * ref["big"], mask=m & used)
    f = resref.fillvalue(case["fill"])
    equal(np.asarray(o["data"], float), np.where(used, o["data"], f).astype(float), f"value where nothing contributed{what}", mask=m)
    if case["ctx"]:
        con = np.asarray(o["con"])
        n = len(ref["used"])
        check(con.ndim == 3 and con.shape[1:] == tuple(case["out"]), f"context{what}: shape {con.shape} for {n} exposures and {case['out']} pixels")
        bits = np.zeros((max(32 * con.shape[0], n),) + tuple(case["out"]), bool)
        for b in range(32 * con.shape[0]):
            bits[b] = (con[b // 32].astype(np.int64) >> (b % 32)) & 1
        want = np.zeros(bits.shape, bool)
        want[:n] = ref["used"]
        equal(bits, want, f"contributing exposures in the context{what}", mask=np.broadcast_to(m, bits.shape))
    else:
        check(o["con"] is None, f"a context exists although it is disabled{what}")
    if case["dq"]:
        equal(np.asarray(o["dq"]).astype(np.int64), ref["dq"], f"propagated flags{what}", mask=m)


def frozen(models):
    return [{k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in m.items()} for m in models]


def unchanged(models, before):
    for m, b in zip(models, before):
        for k, v in b.items():
            if isinstance(v, np.ndarray):
                check(np.array_equal(m[k], v, equal_nan=v.dtype.kind == "f"), f"the input's {k} was modified")


def run(case):
    n = len(case["ex"])
    ref = resref.reference(case)
    models = [resref.model(case, e, i) for i, e in enumerate(case["ex"])]
    before = frozen(models)
    r = resref.make(case)
    for i, m in enumerate(models):
        r.add_model(m)
        if case["first"] and i == 0:
            one = dict(case, ex=case["ex"][:1])
            compare({k: (None if v is None else np.array(v)) if k in ("data", "wht", "con", "dq") else v for k, v in r.output_model.items()}, one, resref.reference(one), " after the first exposure")
    check(not r.is_finalized(), "finalized too early")
    r.finalize()
    check(r.is_finalized(), "not finalized")
    o = r.output_model
    compare(o, case, ref, "")
    unchanged(models, before)
    try:
        r.add_model(models[0])
    except RuntimeError:
        pass
    else:
        fail("an exposure was accepted after finalization")
    # another order, on the reset object
    r.reset_arrays(None if case["nin"] is None else max(n, case["nin"]))
    perm = case["perm"]
    for i in perm:
        r.add_model(models[i])
    r.finalize()
    p = r.output_model
    compare(p, case, resref.reference(case, perm), " in another order")
    unchanged(models, before)
    check(p["pointings"] == o["pointings"], f"pointings: {p['pointings']} and {o['pointings']} in another order")
    several = (ref["used"].sum(axis=0) > 1).any() or any(((aw > 0).sum(axis=(2, 3)) > 1).any() for _, aw in ref["per"])
    return bool(several), [case["wt"], case["kernel"], f"scale={case['k']}"] + (["planes>1"] if n > 32 else []) + (["open-edge"] if ref["open"].any() else [])


# ------------------------------------------------------------------ rotated exposures
@st.composite
def rotated(draw):
    step, order = draw(st.sampled_from([(1, 1), (1, 1), (1, 3), (2, 1), (3, 3), (30, 3)]))
    big = step > 1
    out = (draw(st.integers(12, 18)) + 10 * big, draw(st.integers(12, 18)) + 10 * big)
    p = draw(wcsgen.frames(out, bend=False))
    p["crpix"] = [out[1] / 2, out[0] / 2]
    p["bbox"] = None
    ex = []
    for i in range(draw(st.integers(1, 3))):
        s = (draw(st.integers(3, 6)) + 6 * big, draw(st.integers(3, 6)) + draw(st.sampled_from([6, 0])) * big)
        q = wcsgen.pair(draw, p, s, dither=draw(st.sampled_from([2.0, 4.0])), scale=p["scale"] * draw(st.sampled_from([1.0, 0.5, 1.7, 1.0])), bend=False)
        q["bbox"] = None if draw(st.booleans()) else [[-0.5, s[1] - 0.5], [-0.5, s[0] - 0.5]]
        ex.append({"wcs": q, "data": table(draw, s, [1.0, 2.0, 3.0, 10.0, 5.0, 0.5]).astype(np.float32), "var": table(draw, s, [1.0, 2.0, 0.5, 4.0, 0.0]).astype(np.float32)})
    return {"out": p, "ex": ex, "pixfrac": draw(st.sampled_from([1.0, 1.0, 0.6])), "step": step, "order": order}


def run_rotated(case):
    import shapely
    from stcal.resample import Resample
    p = case["out"]
    ny, nx = p["shape"]
    r = Resample({"wcs": wcsgen.build(p), "pixel_scale": 3600.0 * p["scale"]}, pixfrac=case["pixfrac"], enable_var=False, fillval=0.0,
                 pixmap_stepsize=case["step"], pixmap_order=case["order"])
    W, WD = np.zeros((ny, nx)), np.zeros((ny, nx))
    hits = np.zeros((len(case["ex"]), ny, nx))
    flux = total = 0.0
    for i, e in enumerate(case["ex"]):
        q, s = e["wcs"], e["data"].shape
        a, b = np.array([-0.5, s[1] - 0.5, s[1] - 0.5, -0.5]), np.array([-0.5, -0.5, s[0] - 0.5, s[0] - 0.5])
        x, y = wcsgen.w2p(p, wcsgen.p2w(q, a, b))
        if min(x.min(), y.min()) < -0.4 or x.max() > nx - 0.6 or y.max() > ny - 0.6:
            return False, ["sticks out"]      # see vlib/resref.py on the drizzle package
        r.add_model({"data": e["data"].copy(), "dq": np.zeros(s, np.uint32), "var_rnoise": e["var"].copy(), "filename": f"f{i}", "group_id": i, "wcs": wcsgen.build(q),
                     "exposure_time": 1.0, "start_time": 1.0, "end_time": 2.0, "duration": 1.0, "measurement_time": 1.0, "pixelarea_steradians": np.deg2rad(q["scale"]) ** 2,
                     "level": None, "subtracted": False})
        y, x = np.indices(s).astype(float)
        h = case["pixfrac"] / 2
        cor = np.stack([np.stack(wcsgen.w2p(p, wcsgen.p2w(q, x + a, y + b)), axis=-1) for a, b in ((-h, -h), (h, -h), (h, h), (-h, h))], axis=-2)
        polys = shapely.polygons(cor.reshape(-1, 4, 2))
        wv = np.where(e["var"] > 0, 1 / np.where(e["var"] > 0, e["var"], 1), 0.0).ravel()
        area = shapely.area(polys)
        oy, ox = np.indices((ny, nx))
        cells = shapely.box(ox - 0.5, oy - 0.5, ox + 0.5, oy + 0.5)
        for k in np.flatnonzero(wv > 0):
            b = shapely.bounds(polys[k])
            x1, x2 = max(0, int(b[0] - 1)), min(nx, int(b[2] + 3))
            y1, y2 = max(0, int(b[1] - 1)), min(ny, int(b[3] + 3))
            if x2 <= x1 or y2 <= y1:
                continue
            a = shapely.area(shapely.intersection(cells[y1:y2, x1:x2], polys[k])) / area[k]
            W[y1:y2, x1:x2] += a * wv[k]
            WD[y1:y2, x1:x2] += a * wv[k] * float(e["data"].ravel()[k])
            hits[i, y1:y2, x1:x2] = np.maximum(hits[i, y1:y2, x1:x2], a)
        flux += float((wv * e["data"].ravel()).sum())
        total += float(wv.sum())
    r.finalize()
    o = r.output_model
    wmax = 8.0 * len(case["ex"])
    # the coordinate transforms are followed to about 1e-5 pixel
    close(o["wht"], W, "weight", rtol=2e-4, atol=2e-4 * wmax)
    got = np.asarray(o["wht"], float) * np.asarray(o["data"], float)
    close(got, WD, "weighted data", rtol=2e-4, atol=2e-3 * wmax)
    con = np.asarray(o["con"])[0].astype(np.int64)
    for i in range(len(case["ex"])):
        bit = ((con >> i) & 1).astype(bool)
        bad = (bit & (hits[i] == 0)) & ~near(hits[i]) | (~bit & (hits[i] > 1e-3))
        check(not bad.any(), lambda: f"context of exposure {i}: at {np.argwhere(bad)[0].tolist()} got {bool(bit[tuple(np.argwhere(bad)[0])])}, overlap {hits[i][tuple(np.argwhere(bad)[0])]}")
    check(abs(got.sum() - flux) <= 1e-4 * flux, f"total weighted flux {got.sum()}, put in {flux}")
    check(abs(float(np.asarray(o['wht'], float).sum()) - total) <= 1e-4 * total, f"total weight {o['wht'].sum()}, put in {total}")
    return bool((hits > 0.01).any()), [f"n={len(case['ex'])}", f"step={case['step']}", f"order={case['order']}"]


def near(h):
    p = np.pad(h > 0, 1)
    return np.max([p[1 + a:1 + a + h.shape[0], 1 + b:1 + b + h.shape[1]] for a in (-1, 0, 1) for b in (-1, 0, 1)], axis=0)


# ------------------------------------------------------------------ sparse pixel maps
@st.composite
def sparse(draw):
    s = (draw(st.integers(30, 44)), draw(st.integers(30, 44)))
    p = draw(wcsgen.frames((70, 70), bend=False))
    p["crpix"], p["bbox"] = [35.0, 35.0], None
    q = wcsgen.pair(draw, p, s, dither=2.0, scale=p["scale"] * draw(st.sampled_from([1.0, 0.9])), bend=False)
    q["crpix"] = [s[1] / 2 + draw(st.integers(-3, 3)), s[0] / 2 + draw(st.integers(-3, 3))]
    q["bend"] = draw(st.sampled_from([0.004, -0.004, 0.002]))
    q["bbox"] = draw(st.sampled_from([None, [[-0.5, s[1] - 0.5], [-0.5, s[0] - 0.5]], [[2.0, s[1] - 3.0], [0.0, s[0] - 2.0]]]))
    return {"out": p, "wcs": q, "data": uniform(draw, s, 1.0, 10.0).astype(np.float32), "step": draw(st.sampled_from([5, 3, 4, 9])), "kernel": draw(st.sampled_from(["square", "turbo"]))}


def run_sparse(case):
    from stcal.resample import Resample
    p, q = case["out"], case["wcs"]
    s = case["data"].shape
    res = []
    for kw in ({}, {"pixmap_stepsize": case["step"], "pixmap_order": 3}):
        r = Resample({"wcs": wcsgen.build(p), "pixel_scale": 3600.0 * p["scale"]}, enable_var=False, fillval=0.0, kernel=case["kernel"], weight_type="exptime", **kw)
        r.add_model({"data": case["data"].copy(), "dq": np.zeros(s, np.uint32), "var_rnoise": None, "filename": "f", "group_id": "g", "wcs": wcsgen.build(q),
                     "exposure_time": 1.0, "start_time": 1.0, "end_time": 2.0, "duration": 1.0, "measurement_time": 1.0, "pixelarea_steradians": np.deg2rad(q["scale"]) ** 2,
                     "level": None, "subtracted": False})
        r.finalize()
        res.append(r.output_model)
    a, b = res
    # an exact map and a cubic one of a quadratic distortion; a linear one is off by several thousandths of a pixel
    close(np.asarray(b["wht"], float), np.asarray(a["wht"], float), "weight with a sparse map", rtol=0, atol=1e-3)
    close(np.asarray(b["wht"], float) * b["data"], np.asarray(a["wht"], float) * a["data"], "weighted data with a sparse map", rtol=0, atol=1e-2)
    return bool((np.asarray(a["wht"]) > 0).sum() > 400), [f"step={case['step']}", case["kernel"]]


COMPONENTS = [Component("grid", lambda: resref.cases(), run, quick=700, thorough=20000, shards=6, crashy=False),
              Component("many", lambda: resref.cases(many=True), run, quick=24, thorough=400, shards=4),
              Component("rotated", rotated, run_rotated, quick=300, thorough=10000, shards=6),
              Component("sparse", sparse, run_sparse, quick=60, thorough=2000, shards=3)]

import numpy as np
from hypothesis import strategies as st
from vlib import skyref, wcsgen
from vlib.core import Component, check, equal, fail
from vlib.gen import flagcube, gauss_like, table, uniform

RULE = ("pairs and groups of overlapping images with masks, unusable values in masked pixels and every statistic and clipping setting; "
        "non-trivial when the statistic uses some but not all pixels")


@st.composite
def stats(draw):
    lower = draw(st.sampled_from([None, None, 5.0, -1e3]))
    upper = draw(st.sampled_from([None, None, 30.0, 1e4]))
    if draw(st.integers(0, 3)) == 0:        # the documented defaults
        return {"default": True, "skystat": "mean", "lower": None, "upper": None, "nclip": 5, "lsig": 4.0, "usig": 4.0, "binwidth": 0.1}
    return {"default": False, "skystat": draw(st.sampled_from(["mean", "median", "midpt", "mode", "mean"])), "lower": lower, "upper": upper, "nclip": draw(st.sampled_from([5, 0, 1, 3])),
            "lsig": draw(st.sampled_from([4.0, 2.0, 1.0])), "usig": draw(st.sampled_from([4.0, 1.5, 3.0])), "binwidth": draw(st.sampled_from([0.1, 0.5]))}


@st.composite
def image(draw, shape):
    k = draw(st.sampled_from(["noise", "noise", "steps", "wide"]))
    if k == "wide":                         # outliers of many sizes, which take several passes of clipping
        u, w = uniform(draw, shape, 0, 1), uniform(draw, shape, 0, 1)
        im = 10 + gauss_like(draw, shape, 3.0) + np.where(u < 0.06, np.where(w < 0.5, 1, -1) * (0.7 + 0.3 * w) * 10.0 * draw(st.sampled_from([1.6, 3.0])) ** (u * 100), 0)
    else:
        im = 10 + gauss_like(draw, shape, 3.0) if k == "noise" else table(draw, shape, [1.0, 10.0, 11.0, 12.0, 50.0, 10.5])
    im = im + np.where(flagcube(draw, shape, [1], draw(st.sampled_from([0, 10, 60]))) > 0, 200.0, 0.0)
    mask = flagcube(draw, shape, [1], draw(st.sampled_from([0, 30, 128, 255]))) == 0
    return {"image": im.astype(np.float32), "mask": mask, "maskkind": draw(st.sampled_from(["bool", "bool", "int", "uint8"])),
            "badval": draw(st.sampled_from([float("nan"), 1e9, -1e9, float("inf"), 500.0, -77.0, 1e4])), "sky": draw(st.sampled_from([0.0, 0.0, 2.5, -1.25]))}


@st.composite
def cases(draw):
    lay = draw(skyref.layout(nmax=4))
    return {"layout": lay, "im": [draw(image(tuple(p["shape"]))) for p in lay], "stat": draw(stats()), "group": draw(st.booleans()), "delta": draw(st.booleans()),
            "step": draw(st.sampled_from([None, None, 5]))}


def arrays(c, doubt=None):
    """Image and mask handed to the code: pixels in doubt are masked, masked pixels hold an unusable value."""
    mask = c["mask"].copy()
    if doubt is not None:
        mask &= ~doubt
    im = c["image"].copy()
    im[~mask] = c["badval"]
    return im, mask, mask if c["maskkind"] == "bool" else mask.astype({"int": int, "uint8": np.uint8}[c["maskkind"]])


def clipped(v, s):
    """Independent clipped mean / median; None when no values are left or the statistic is not modelled here."""
    v = np.asarray(v, np.float32).astype(float)
    if v.size == 0:
        return None
    lo = v.min() if s["lower"] is None else s["lower"]
    hi = v.max() if s["upper"] is None else s["upper"]
    if lo > v.max() or hi < v.min() or lo > hi:
        return None
    a, b, edge = lo, hi, False
    for i in range(s["nclip"] + 1):
        w = v[(v >= a) & (v <= b)]
        if w.size == 0:
            return None
        m, sd = w.mean(), w.std(ddof=1) if w.size > 1 else 0.0
        if i < s["nclip"]:
            a, b = max(lo, m - s["lsig"] * sd), min(hi, m + s["usig"] * sd)
            edge |= bool((np.abs(np.concatenate([v - a, v - b])) < 1e-4 * (1 + abs(m) + sd)).any() and sd > 0) or sd == 0
    w = v[(v >= a) & (v <= b)] if s["nclip"] else v
    w2 = v[(v >= a) & (v <= b)]
    return (w2.mean() if s["skystat"] == "mean" else np.median(w if s["nclip"] else v)), len(w2), edge


def expect(v, s):
    """The statistic of exactly these values, by the statistics package itself; (None, 0) when it has no answer."""
    from stsci.imagestats import ImageStats
    import contextlib, io
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            i = ImageStats(np.asarray(v, np.float32), fields="npix," + s["skystat"], **{k: s[k] for k in ("lower", "upper", "nclip", "lsig", "usig", "binwidth")})
    except ValueError:
        return None, 0
    r = getattr(i, s["skystat"])
    return (r, i.npix) if np.isfinite(r) else (None, 0)


def same(got, want, what):
    g, n = got[:2]
    w, m = want
    check((g is None) == (w is None), f"{what}: got {got}, expected {want}")
    if w is not None:
        check(abs(g - w) <= 1e-5 * (1 + abs(w)) and n == m, f"{what}: got {got}, expected {want}")


def run(case):
    import contextlib, io
    from stcal.skymatch import SkyGroup
    from stcal.skymatch.skystatistics import SkyStats
    lay, s = case["layout"], case["stat"]
    n = len(lay)
    for i in range(n):
        for j in range(i):
            if skyref.degenerate(lay[i], lay[j]):
                return False, ["degenerate layout"]
    stat = SkyStats() if s["default"] else SkyStats(**{k: v for k, v in s.items() if k != "default"})
    # 1. whole image
    c = case["im"][0]
    im, mask, given = arrays(c)
    a = skyref.make(lay[0], im.copy(), given.copy(), stat, "a", case["step"])
    with contextlib.redirect_stdout(io.StringIO()):
        got = a.calc_sky(delta=False)
        same(got, expect(im[mask], s), "whole image")
        own = clipped(im[mask], s) if s["skystat"] in ("mean", "median") else None
        if own is not None and got[0] is not None and not own[2]:
            check(abs(got[0] - own[0]) <= 1e-4 * (1 + abs(own[0])), f"{s['skystat']} of the whole image: {got[0]}, independently {own[0]}")
            check(got[1] == own[1], f"pixels used: {got[1]}, independently {own[1]}")
        a.sky = c["sky"]
        if got[0] is not None:
            d = a.calc_sky(delta=True)
            check(abs(d[0] - (got[0] - c["sky"])) < 1e-5 * (1 + abs(d[0])), f"relative sky {d[0]} for an absolute sky {got[0]} and a stored {c['sky']}")
        equal(a.image, im, "image after a measurement")
        labels, nontriv = [s["skystat"]], False
        if n > 1:
            # 2. overlap with another image, or a group of all others
            others = lay[1:] if case["group"] else lay[1:2]
            ins, doubt = np.zeros(lay[0]["shape"], bool), np.zeros(lay[0]["shape"], bool)
            for q in others:
                x, y = skyref.region(lay[0], q)
                ins |= x
                doubt |= y
            ins &= ~doubt
            im, mask, given = arrays(c, doubt)
            a = skyref.make(lay[0], im.copy(), given.copy(), stat, "a", None)
            obj = [skyref.make(q, np.zeros(q["shape"], np.float32), np.ones(q["shape"], bool), stat, str(k)) for k, q in enumerate(others)]
            other = SkyGroup(obj, sky_id="g") if case["group"] else obj[0]
            got = a.calc_sky(overlap=other, delta=False)
            want = expect(im[mask & ins], s) if (mask & ins).any() else (None, 0)
            same(got, want, "overlap")
            if got[0] is not None:
                import shapely
                area = sum(float(shapely.area(skyref.overlap(lay[0], q))) for q in others) * np.deg2rad(lay[0]["scale"]) ** 2
                check(abs(got[2] - area) <= 2e-3 * area, f"overlap area {got[2]}, expected {area}")
            equal(a.image, im, "image after a measurement")
            nontriv = got[0] is not None and got[1] < mask.sum()
            labels.append("group" if case["group"] else "pair")
            labels.append("none" if got[0] is None else "overlap")
            # 3. the group's own statistic
            ga = [skyref.make(q, *arrays(cc)[::2], stat, str(k)) for k, (q, cc) in enumerate(zip(lay, case["im"]))]
            grp = SkyGroup(ga, sky_id="h")
            each = [expect(arrays(cc)[0][arrays(cc)[1]], s) for cc in case["im"]]
            fin = [e for e in each if e[0] is not None]
            got = grp.calc_sky(delta=False)
            if not fin:
                check(got[0] is None, f"group sky {got}, although no image has one")
            else:
                w = min(e[0] for e in fin)
                check(got[0] is not None and abs(got[0] - w) <= 1e-5 * (1 + abs(w)), f"group sky {got[0]}, smallest of its images {w}")
        if n > 2:
            # 4. a group in its overlap with one image: the pixel-weighted mean of its images' statistics
            members, sums, npix = [], 0.0, 0
            for k in [0] + list(range(2, n)):
                ins, doubt = skyref.region(lay[k], lay[1])
                im, mask, given = arrays(case["im"][k], doubt)
                members.append(skyref.make(lay[k], im, given, stat, str(k)))
                v, m = expect(im[mask & ins], s) if (mask & ins).any() else (None, 0)
                if v is not None:
                    sums, npix = sums + v * m, npix + m
            b = skyref.make(lay[1], np.zeros(lay[1]["shape"], np.float32), np.ones(lay[1]["shape"], bool), stat, "b")
            got = SkyGroup(members).calc_sky(overlap=b, delta=False)
            same(got, (sums / npix, npix) if npix else (None, 0), "group in its overlap with an image")
            labels.append("group-overlap")
    return bool(nontriv), labels


# ------------------------------------------------------------------ subtraction and order
@st.composite
def calls(draw):
    lay = draw(skyref.layout(nmax=4, size=(10, 18)))
    return {"layout": lay, "im": [draw(image(tuple(p["shape"]))) for p in lay], "skymethod": draw(st.sampled_from(["local", "global", "match", "global+match", "Local"])),
            "down": draw(st.booleans()), "sub": draw(st.booleans()), "again": draw(st.booleans()), "perm": draw(st.permutations(list(range(len(lay))))),
            "groups": [draw(st.sampled_from([None, None, "g", "h"])) for _ in lay]}


def run_calls(case):
    import contextlib, io
    from stcal.skymatch import SkyGroup, skymatch
    from stcal.skymatch.skystatistics import SkyStats
    lay = case["layout"]
    for i in range(len(lay)):
        for j in range(i):
            if skyref.degenerate(lay[i], lay[j]):
                return False, ["degenerate layout"]
    def go(order, sub):
        stat = SkyStats("mean", nclip=0)
        ims = [skyref.make(p, *(x.copy() for x in arrays(c)[::2]), stat, k) for k, (p, c) in enumerate(zip(lay, case["im"]))]
        items, seen = [], {}
        for i in order:
            g = case["groups"][i]
            if g is None:
                items.append(ims[i])
            elif g not in seen:
                seen[g] = [ims[k] for k in sorted(order) if case["groups"][k] == g]
                items.append(SkyGroup(seen[g], sky_id=g))
        with contextlib.redirect_stdout(io.StringIO()):
            skymatch(items, case["skymethod"], match_down=case["down"], subtract=sub)
        return ims, items
    first = [arrays(c)[0] for c in case["im"]]
    ims, items = go(range(len(lay)), case["sub"])
    sky = [float(i.sky) for i in ims]
    check(all(np.isfinite(sky)), f"sky values {sky}")
    for k, (i, before) in enumerate(zip(ims, first)):
        want = before.astype(float) - sky[k] if case["sub"] else before
        m = np.isfinite(before) & (np.abs(before) < 1e8)
        bad = m & ~(np.abs(i.image - want) <= 1e-4 * (1 + abs(sky[k]) + np.abs(want)))
        check(not bad.any(), lambda: f"image {k} after skymatch (subtract={case['sub']}): {i.image[bad][0]}, expected {want[bad][0]} for sky {sky[k]}")
        if not case["sub"]:
            equal(i.image, before, f"image {k} although no subtraction was asked for")
        equal(np.asarray(i.mask).astype(bool), case["im"][k]["mask"], "mask")
    for g in items:
        if not hasattr(g, "image"):
            check(max(abs(i.sky - g.sky) for i in g) < 1e-6 * (1 + abs(g.sky)), f"images of one group received {[i.sky for i in g]}, the group {g.sky}")
    other, _ = go(case["perm"], case["sub"])
    for k in range(len(lay)):
        check(abs(other[k].sky - sky[k]) <= 2e-4 * (1 + abs(sky[k])), f"sky of image {k} is {sky[k]}, but {other[k].sky} for input order {case['perm']}")
        check(bool(other[k].is_sky_valid) == bool(ims[k].is_sky_valid), f"validity of image {k} depends on the input order")
    plain, _ = go(range(len(lay)), not case["sub"])
    for k in range(len(lay)):
        check(abs(plain[k].sky - sky[k]) <= 1e-3 * (1 + abs(sky[k])), f"sky of image {k} is {sky[k]} with subtract={case['sub']}, {plain[k].sky} otherwise")
    if case["again"]:      # a second run in the same mode finds nothing more to change
        with contextlib.redirect_stdout(io.StringIO()):
            skymatch(items, case["skymethod"], match_down=case["down"], subtract=case["sub"])
        for k, i in enumerate(ims):
            tol = 1e-3 * (1 + abs(sky[k]))
            check(abs(i.sky - sky[k]) <= tol, f"a second run changes the sky of image {k} from {sky[k]} to {i.sky}")
    return bool(len(lay) > 1 and any(s != 0 for s in sky)), [case["skymethod"].lower(), f"subtract={case['sub']}"]


COMPONENTS = [Component("statistics", cases, run, quick=600, thorough=20000, shards=6),
              Component("calls", calls, run_calls, quick=400, thorough=10000, shards=6)]

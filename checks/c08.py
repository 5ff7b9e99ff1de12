import numpy as np
from hypothesis import strategies as st
from vlib.core import Component, check, close, equal
from vlib.events import Fragile, large_events
from vlib.gen import flagcube, gauss_like, table
from vlib.likely import call, gls, likely_cases, prepare
from vlib.ramps import DNU, DQ, JUMP, SAT, make_model

RULE = ("ramps over uniform, gapped and explicit read patterns with noise, steps, flags, darks and zero frames; every pixel is compared with "
        "a dense generalized-least-squares solve; non-trivial when a pixel has a masked difference and a pattern with multiple reads or gaps")


def run(case):
    (image, integ, opt), rd = call(case)
    cv, d, use, gdq, zero = prepare(case)
    nints, nd, nr, nc = d.shape
    new = np.asarray(rd.groupdq)
    ng = case["gdq"].shape[1]
    check(new.shape == case["gdq"].shape, "shape of the group flags changed")
    jumped = (new & JUMP > 0) & (case["gdq"] & JUMP == 0)
    # a detected jump removes the difference that ends in the flagged group
    loss = np.concatenate([np.zeros_like(jumped[:, :1]), jumped], axis=1) if zero else jumped
    fin = use & ~loss[:, 1:]
    some = masked = False
    rn = case["rn"] / np.sqrt(np.float32(2))
    for i in range(nints):
        for r in range(nr):
            for c in range(nc):
                x, u = d[i, :, r, c], fin[i, :, r, c]
                where = f"of integration {i} pixel {(r, c)}"
                g, n = float(case["gain"][r, c]), float(rn[r, c])
                got = {k: float(integ[k][i, r, c]) for k in ("slope", "err", "var_poisson", "var_rnoise", "chisq")}
                if not u.any():
                    check(np.isnan(got["slope"]), f"slope {where} is {got['slope']} although no difference is usable")
                    continue
                g0 = max(float(np.median(x)), 0.0)
                guess = max(gls(x, u, g0 / g * cv.ph + n * n * cv.rd)[0], 0.0) + float(case["dark"][r, c])
                rate, c2, var, idx, w = gls(x, u, guess / g * cv.ph + n * n * cv.rd)
                scale = np.abs(case["data"][i, :, r, c]).max() / cv.dt.min()
                close(np.float64(got["slope"]), rate, f"slope {where}", rtol=1e-5, atol=1e-6 * scale + 1e-3 * np.sqrt(var))
                vp = float(w @ (guess / g * cv.ph)[np.ix_(idx, idx)] @ w)
                vr = float(w @ (n * n * cv.rd)[np.ix_(idx, idx)] @ w)
                close(np.float64(got["err"]), np.sqrt(var), f"error {where}", rtol=1e-3)
                close(np.float64(got["var_poisson"]), vp, f"Poisson variance {where}", rtol=2e-3, atol=1e-6 * var)
                close(np.float64(got["var_rnoise"]), vr, f"read-noise variance {where}", rtol=2e-3, atol=1e-6 * var)
                close(np.float64(got["chisq"]), c2, f"chi squared {where}", rtol=1e-3, atol=1e-3 + 1e-5 * c2)
                some = True
                masked |= not u.all()
    combine(image, integ, nints)
    flags(case, image, integ, new)
    return bool(some and masked and (cv.N > 1).any()), (["zero frame"] if zero else []) + [f"integrations {nints}", "explicit" if case["read_times"] is not None else "uniform"]


def combine(image, integ, nints):
    """The exposure's product from the reported per-integration ones."""
    s, vp, vr = (np.asarray(integ[k], dtype=float) for k in ("slope", "var_poisson", "var_rnoise"))
    if nints == 1:
        for k in ("slope", "var_poisson", "var_rnoise", "err", "chisq"):
            equal(image[k], np.asarray(integ[k])[0], f"exposure {k} of a single integration")
        return
    for r in range(s.shape[1]):
        for c in range(s.shape[2]):
            a, p, n = s[:, r, c], vp[:, r, c], vr[:, r, c]
            ok = np.isfinite(a) & np.isfinite(p) & np.isfinite(n)
            if not ok.any():
                check(np.isnan(image["slope"][r, c]), f"exposure slope of pixel {(r, c)} without any rate is {image['slope'][r, c]}")
                continue
            x = float(np.median(a[ok]))
            for _ in range(2):
                f = np.array([x / v if v != 0 else 0.0 for v in a[ok]])
                f = np.where(np.isfinite(f) & (f > 0), f, 0.0)
                w = 1 / (p[ok] * f + n[ok])
                w /= w.sum()
                x = float((w * a[ok]).sum())
            at = 2e-6 * np.abs(a[ok]).max() + 1e-4 * np.sqrt((p * 0 + n)[ok].max())
            sens = (np.abs(a[ok]).min() < 1e-4 * np.abs(a[ok]).max()) or abs(x) < 1e-3 * np.abs(a[ok]).max()
            if sens:      # ratios of rates next to zero: rounding decides
                continue
            close(np.float64(image["slope"][r, c]), x, f"exposure slope of pixel {(r, c)}", rtol=1e-4, atol=at)
            close(np.float64(image["var_poisson"][r, c]), (w * w * p[ok] * f).sum(), f"exposure Poisson variance of pixel {(r, c)}", rtol=3e-3, atol=1e-6 * (n[ok].max() + p[ok].max()))
            close(np.float64(image["var_rnoise"][r, c]), (w * w * n[ok]).sum(), f"exposure read-noise variance of pixel {(r, c)}", rtol=3e-3, atol=1e-6 * n[ok].max())
            close(np.float64(image["err"][r, c]) ** 2, float(image["var_poisson"][r, c]) + float(image["var_rnoise"][r, c]), f"exposure error of pixel {(r, c)}", rtol=1e-4)


def flags(case, image, integ, new):
    n = new.astype(np.int64)
    want = np.broadcast_to(case["pdq"].astype(np.int64), n[:, 0].shape).copy()
    want |= np.where((n & SAT > 0).any(1), SAT, 0) | np.where((n & JUMP > 0).any(1), JUMP, 0)
    want |= np.where((n & (SAT | DNU) > 0).all(1), DNU, 0)
    equal(np.asarray(integ["dq"]).astype(np.int64), want, "integration flags of the likelihood fit")
    fin = np.bitwise_or.reduce(want, axis=0)
    fin = np.where((want & DNU > 0).all(0), fin, fin & ~DNU)
    equal(np.asarray(image["dq"]).astype(np.int64), fin, "exposure flags of the likelihood fit")


# ------------------------------------------------------------------ large events found on the way
@st.composite
def snowy(draw):
    nr, nc = draw(st.sampled_from([(20, 20), (16, 26), (24, 14)]))
    ni, ng = draw(st.integers(1, 2)), draw(st.integers(4, 6))
    g = np.zeros((ni, ng, nr, nc), np.int64)
    y, x = np.mgrid[:nr, :nc]
    for _ in range(draw(st.integers(1, 3))):
        i, t = draw(st.integers(0, ni - 1)), draw(st.integers(1, ng - 1))
        cy, cx, a, b = draw(st.integers(0, nr - 1)), draw(st.integers(0, nc - 1)), draw(st.integers(2, 6)), draw(st.integers(2, 6))
        d = np.hypot((y - cy) / (a + 0.3), (x - cx) / (b + 0.3))
        g[i, t] |= np.where(d < 1, JUMP, 0)
        if draw(st.integers(0, 3)):
            g[i, t + (draw(st.integers(0, 3)) == 0):] |= np.where(d < draw(st.sampled_from([0.6, 0.45, 0.8])), SAT, 0)
    g |= flagcube(draw, g.shape, [DNU, JUMP, 0], draw(st.sampled_from([0, 4, 10])))
    g = np.where((g & (SAT | DNU)) != 0, g & ~JUMP, g)
    nf = draw(st.sampled_from([1, 2, 4]))
    gap = draw(st.sampled_from([0, 1]))
    ft = draw(st.sampled_from([1.0, 2.775]))
    reads = [[(k + 1 + n * (nf + gap)) * ft for k in range(nf)] for n in range(ng)]
    rate = table(draw, (nr, nc), [10.0, 100.0, 3.0, 1500.0])
    rn = table(draw, (nr, nc), [10.0, 20.0, 4.0]).astype(np.float32)
    t = np.array([np.mean(v) for v in reads])
    data = 100.0 + rate * t[None, :, None, None] + gauss_like(draw, (ni, ng, nr, nc), 1.0) * (rn / np.sqrt(2 * nf) + np.sqrt(0.5 * rate * ft))
    zf = (100.0 + rate * ft + gauss_like(draw, (ni, nr, nc), 1.0) * rn).astype(np.float32) if draw(st.booleans()) else None
    return {"data": data.astype(np.float32), "gdq": g.astype(np.uint8), "pdq": np.zeros((nr, nc), np.uint32), "gain": table(draw, (nr, nc), [1.0, 1.8, 4.0]).astype(np.float32), "rn": rn,
            "dark": np.zeros((nr, nc), np.float32), "zf": zf, "frame_time": ft, "group_time": float((nf + gap) * ft), "nframes": nf, "groupgap": gap, "drop": None, "name": "NIRCam",
            "suppress": False, "read_times": None, "reads": [[float(v) for v in r] for r in reads], "thr": 1000.0, "on": draw(st.sampled_from([True] * 7 + [False])),
            "min_jump_area": draw(st.sampled_from([5, 1, 10])), "min_sat_area": draw(st.sampled_from([1, 2, 6])), "expand_factor": draw(st.sampled_from([2.0, 1.5, 3.0])),
            "sat_required": draw(st.sampled_from([True, True, False])), "min_sat_radius_extend": draw(st.sampled_from([2.5, 0.5])), "sat_expand": draw(st.sampled_from([2, 0, 4])),
            "edge_size": draw(st.sampled_from([0, 3])), "max_width": draw(st.sampled_from([200, 12])), "mask_next": False, "persist_grps": 25}


def run_snowy(case):
    from stcal.jump.jump_class import JumpData
    from stcal.ramp_fitting.likely_fit import likely_ramp_fit
    from stcal.ramp_fitting.ramp_fit import create_ramp_fit_class
    jd = JumpData(dqflags={"GOOD": 0, "DO_NOT_USE": DNU, "SATURATED": SAT, "JUMP_DET": JUMP, "NO_GAIN_VALUE": 8, "REFERENCE_PIXEL": 2**31})
    jd.set_snowball_info(case["on"], *(case[k] for k in ("min_jump_area", "min_sat_area", "expand_factor", "sat_required", "min_sat_radius_extend", "sat_expand", "edge_size")))
    jd.max_extended_width = case["max_width"]
    jd.mask_persist_grps_next_int = False
    rd = create_ramp_fit_class(make_model(case), "LIKELY", dict(DQ))
    rd.rejection_threshold = case["thr"]
    image, integ, _ = likely_ramp_fit(rd, case["rn"].copy(), case["gain"].copy(), jump_data=jd)
    cv, d, use, gdq, zero = prepare(case)
    new = np.asarray(rd.groupdq).astype(np.int64)
    nints, nd, nr, nc = d.shape
    want, open_ = gdq.astype(np.int64), np.zeros(gdq.shape, bool)
    if case["on"]:
        try:
            for i in range(nints):
                want[i:i + 1], open_[i:i + 1], _, _ = large_events(gdq[i:i + 1], case)
        except Fragile:
            return False, ["hangs on rounding, not compared"]
    added = want & ~gdq.astype(np.int64) & (JUMP | SAT)
    full = case["gdq"].astype(np.int64) | added[:, -new.shape[1]:]
    o = open_[:, -new.shape[1]:]
    found = (new & JUMP > 0) & (full & JUMP == 0) & ~o
    check(not (((new != full) & ~o).any() and not found.any()), lambda: "group flags after the fit: " + str([(tuple(p), int(new[tuple(p)]), int(full[tuple(p)])) for p in np.argwhere((new != full) & ~o)[:3]]))
    skip = open_.any(axis=1) | np.concatenate([found, found[:, :1]], axis=1).any(axis=1)      # the border of an ellipse; a jump beyond a huge threshold
    fin = use & ((want[:, 1:] & (JUMP | SAT)) == 0) & ((want[:, :-1] & SAT) == 0)
    rn = case["rn"] / np.sqrt(np.float32(2))
    changed = (added != 0).any(axis=1)
    pick = np.argwhere(changed & ~skip)
    rest = np.argwhere(~changed & ~skip)
    for i, r, c in [tuple(v) for v in pick[::max(1, len(pick) // 80)]] + [tuple(v) for v in rest[::max(1, len(rest) // 25)]]:
        x, u = d[i, :, r, c], fin[i, :, r, c]
        where = f"of integration {i} pixel {(int(r), int(c))}, group flags {want[i, :, r, c].tolist()}"
        g, n = float(case["gain"][r, c]), float(rn[r, c])
        got = float(integ["slope"][i, r, c])
        if not u.any():
            check(np.isnan(got), f"slope {where} is {got} although no difference is usable")
            continue
        before = use[i, :, r, c]
        g0 = max(float(np.median(x)), 0.0)
        guess = max(gls(x, before, g0 / g * cv.ph + n * n * cv.rd)[0], 0.0)      # the rate guess is made before the events are found
        rate, c2, var, idx, w = gls(x, u, guess / g * cv.ph + n * n * cv.rd)
        scale = np.abs(case["data"][i, :, r, c]).max() / cv.dt.min()
        close(np.float64(got), rate, f"slope {where}", rtol=1e-5, atol=1e-6 * scale + 1e-3 * np.sqrt(var))
        close(np.float64(integ["err"][i, r, c]), np.sqrt(var), f"error {where}", rtol=1e-3)
    n64, ok = want, ~skip      # saturation replaces jumps in grown cores
    w = np.where((n64 & SAT > 0).any(1), SAT, 0) | np.where((n64 & JUMP > 0).any(1), JUMP, 0) | np.where((n64 & (SAT | DNU) > 0).all(1), DNU, 0)
    equal(np.where(ok, np.asarray(integ["dq"]).astype(np.int64), 0), np.where(ok, w, 0), "integration flags")
    return bool(added.any()), ["core grown" if (added & SAT).any() else "jumps only" if added.any() else "nothing added"] + (["zero frame"] if zero else [])


def run_again(case):
    """The description of the exposure is not used up by a fit."""
    case = dict(case, thr=1000.0)
    first, rd = call(case)
    if not np.array_equal(np.asarray(rd.groupdq), case["gdq"]):
        return False, ["jumps found"]
    second, _ = call(case, rd)
    for a, b, n in ((first[0], second[0], "exposure"), (first[1], second[1], "integration")):
        for k in a:
            equal(np.asarray(b[k]), np.asarray(a[k]), f"{n} {k} of a repeated fit")
    return case["read_times"] is not None and case["zf"] is not None, ["zero frame" if case["zf"] is not None else "plain"]


COMPONENTS = [Component("repeat", lambda: likely_cases(zeroframe=True, jumps=False, max_ints=2), run_again, quick=150, shards=4),
              Component("gls", lambda: likely_cases(), run, quick=1200, shards=8),
              Component("gls-flags", lambda: likely_cases(jumps=False, max_groups=16, max_ints=2), run, quick=500, shards=8),
              Component("large-events", snowy, run_snowy, quick=240, thorough=8000, shards=4)]

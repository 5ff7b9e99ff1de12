"""Cases and reference for the Casertano et al. (2022) uneven-resultant ramp fit."""
import numpy as np
from hypothesis import strategies as st
from .gen import flagcube, gauss_like, own, table

PT = [(5, 0.0), (10, 0.4), (20, 1.0), (50, 3.0), (100, 6.0), (np.inf, 10.0)]


@st.composite
def cas_cases(draw, jumps=False, max_res=14, min_res=1, near=False):
    nres = draw(st.integers(min_res, max_res))
    npix = draw(st.integers(1, 10))
    layout = draw(st.sampled_from(["1d", "2d", "2d", "3d"]))
    if layout == "1d":
        npix = 1
    reads, t = [], draw(st.sampled_from([0, 1, 5]))
    for _ in range(nres):
        n = draw(st.sampled_from([1, 1, 2, 3, 8, 25]))
        reads.append(list(range(t + 1, t + n + 1)))
        t += n + draw(st.sampled_from([0, 0, 0, 1, 4]))
    rt = draw(st.sampled_from([3.04, 1.0, 0.25]))
    tb = np.array([np.mean(r) for r in reads]) * rt
    T = max(tb[-1] - tb[0], rt)
    rn = table(draw, (npix,), [5.0, 1.0, 15.0, 60.0])
    flux = table(draw, (npix,), [5.0, 0.5, 50.0, 500.0, 0.0, 5000.0, -2.0, 0.05])
    noise = gauss_like(draw, (nres, npix), 1.0) * draw(st.sampled_from([1.0, 0.0, 0.3]))
    n = np.array([len(r) for r in reads])[:, None]
    res = draw(st.sampled_from([0.0, 300.0])) + flux * tb[:, None] + noise * np.sqrt(rn**2 / n + np.abs(flux) * rt)
    if jumps:
        steps = flagcube(draw, (nres, npix), [1, 2, 3, 4], draw(st.sampled_from([12, 40, 90])))
        amp = np.array([0, 1e3, 60.0, 2e4, -300.0])[steps] + np.where(steps > 0, 10 * rn, 0)
        frac = table(draw, (nres, npix), [1.0, 0.5, 0.9, 0.1])
        tot = np.cumsum(amp, axis=0)
        res = res + tot - amp * (1 - frac)
    if near:        # one step per pixel of about the size of the threshold, at rates up to and beyond the range in which it varies
        rn = np.minimum(rn, 15.0)
        flux = table(draw, (npix,), [30000.0, 3e5, 9000.0, 12000.0, 1.5, 0.7, 100.0])
        noise = gauss_like(draw, (nres, npix), 1.0) * draw(st.sampled_from([0.0, 0.1]))
        sig = np.sqrt(rn**2 / n + flux * rt)
        size = table(draw, (npix,), [3.6, 2.5, 2.9, 3.3, 4.0, 4.4, 5.0, 5.6, 6.5, 8.0, 11.0])
        at = table(draw, (npix,), list(range(nres))).astype(int)
        k = np.maximum(1, at)
        dt = np.diff(tb)[k - 1]
        amp = size * np.sqrt(rn**2 * (1 / n[k, 0] + 1 / n[k - 1, 0]) + flux * dt) * 1.3
        res = draw(st.sampled_from([0.0, 300.0])) + flux * tb[:, None] + noise * sig + (np.arange(nres)[:, None] >= k) * amp
    dq = flagcube(draw, (nres, npix), [4, 1, 2, 64, 2**20], draw(st.sampled_from([0, 0, 30, 90, 200])))
    thr = draw(st.sampled_from([None, None, (5.5, 1 / 3), (4.0, 0.0), (8.0, 1.0), (12.0, 0.5)] + ([(5.5, 0.5), (6.0, 0.7), (10.0, 1.5)] if near else []))) if jumps else None
    return {"res": res.astype(np.float32), "dq": dq.astype(np.int32), "rn": rn.astype(np.float32), "rt": rt, "reads": reads, "layout": layout,
            "thr": thr, "jump": jumps}


def call(case, jump=None):
    from stcal.ramp_fitting.ols_cas22_fit import fit_ramps_casertano
    jump = case["jump"] if jump is None else jump
    kw = {}
    if case["thr"] is not None:
        kw = {"threshold_intercept": case["thr"][0], "threshold_constant": case["thr"][1]}
    c = own(case)
    res, dq, rn = c["res"], c["dq"], c["rn"]
    npix = res.shape[1]
    if case["layout"] == "1d":
        a = (res[:, 0], dq[:, 0], float(rn[0]))
    elif case["layout"] == "3d":
        k = next((k for k in (3, 2) if npix % k == 0), 1)
        a = (res.reshape(-1, k, npix // k), dq.reshape(-1, k, npix // k), rn.reshape(k, npix // k))
    else:
        a = (res, dq, rn)
    keep = [np.array(x) for x in a]
    out = fit_ramps_casertano(a[0], a[1], a[2], case["rt"], case["reads"], jump, **kw)
    for x, y, n in zip(a, keep, ("resultants", "flags", "read noise")):
        assert np.array_equal(x, y), n
    shp = np.shape(a[0])[1:]
    p, v, q = np.asarray(out.parameters), np.asarray(out.variances), np.asarray(out.dq)
    from .core import check
    check(p.shape == shp + (2,), f"parameters have shape {p.shape}")
    check(v.shape == shp + (3,), f"variances have shape {v.shape}")
    check(q.shape == np.shape(a[0]), f"flags have shape {q.shape}")
    return p.reshape(npix, 2), v.reshape(npix, 3), q.reshape(res.shape)


class Pattern:
    def __init__(self, reads, rt):
        self.n = np.array([len(r) for r in reads], dtype=float)
        self.t = np.array([np.mean(r) for r in reads]) * rt
        # tau: mean over all pairs of reads of the earlier one
        self.tau = np.array([np.minimum.outer(np.array(r), np.array(r)).mean() for r in reads]) * rt


def fit_run(p, y, rn, a, b):
    """Fit of resultants a..b; (slope, read variance, Poisson variance per unit rate, condition, near a power limit)."""
    if b - a < 1:
        return None
    t, n, tau, y = p.t[a:b + 1], p.n[a:b + 1], p.tau[a:b + 1], y[a:b + 1]
    s = max(y[-1] - y[0], 0.0)
    snr = s / np.sqrt(rn**2 + s)
    pw = next(v for lim, v in PT if snr < lim)
    near = any(abs(snr - lim) < 1e-4 * lim for lim, _ in PT if np.isfinite(lim))
    mid, sc = (t[0] + t[-1]) / 2, (t[-1] - t[0]) / 2
    near |= pw == 0.4 and bool((np.abs((t - mid) / sc) < 1e-5).any())   # rounding of the times, to the power 0.4
    w = (1 + pw) * n / (1 + pw * n) * np.abs((t - mid) / sc) ** pw
    f0, f1, f2 = w.sum(), (w * t).sum(), (w * t * t).sum()
    det = f2 * f0 - f1**2
    # the float32 times carry a relative error that cancellation magnifies
    cond = f2 * f0 / det
    k = (f0 * t - f1) * w / det
    slope = (k * y).sum()
    rv = (k**2 * rn**2 / n).sum()
    cov = np.minimum.outer(t, t)
    np.fill_diagonal(cov, tau)
    pv = k @ cov @ k
    return slope, rv, pv, cond, near, np.abs(k * y).sum(), np.abs(np.outer(k, k) * cov).sum()


def runs(good):
    out, a = [], None
    for i, g in enumerate(list(good) + [False]):
        if g and a is None:
            a = i
        if not g and a is not None:
            out.append((a, i - 1))
            a = None
    return out


def combine(fits):
    fits = [f for f in fits if f is not None]
    if not fits:
        return 0.0, 0.0, 0.0, 0.0, 1.0
    w = np.array([1 / f[1] for f in fits])
    W = w.sum()
    s = sum(x * f[0] for x, f in zip(w, fits)) / W
    rv = sum(x**2 * f[1] for x, f in zip(w, fits)) / W**2
    pv = sum(x**2 * f[2] for x, f in zip(w, fits)) / W**2
    mag = sum(x * f[5] for x, f in zip(w, fits)) / W
    pm = sum(x**2 * f[6] for x, f in zip(w, fits)) / W**2
    return s, rv, pv, mag, max(f[3] for f in fits), pm


def statistics(p, y, rn, a, b, slope, mag, cond):
    """Single and double difference statistics of the run, by position; and what single precision may change in them."""
    T = p.t[b] - p.t[a]
    out, edge, err = [], False, 0.0
    for i in range(a, b):
        best = np.nan
        for j in (1, 2):
            if i + j > b:
                continue
            dt = p.t[i + j] - p.t[i]
            vr = rn**2 * (1 / p.n[i] + 1 / p.n[i + j]) / dt**2
            vs = slope * (p.tau[i] + p.tau[i + j] - 2 * min(p.t[i], p.t[i + j])) / dt**2
            var = vr + vs - slope / T
            tot = abs(vr) + abs(vs) + abs(slope / T)
            if abs(var) < 2e-4 * tot:
                edge = True
            if var > 0:
                err = max(err, (5e-7 * mag + (3e-7 + 2e-7 * cond) * abs(slope)) / np.sqrt(var))
                best = np.fmax(best, ((y[i + j] - y[i]) / dt - slope) / np.sqrt(var))
        out.append(best)
    return np.array(out), edge, err


def detect(p, y, rn, good, thr):
    """Recursive splitting; returns (jump resultants, runs finally fitted, ambiguous)."""
    ic, k = (5.5, 1 / 3) if thr is None else thr
    todo, jumps, keep = runs(good), set(), []
    scale = np.abs(y).max()
    while todo:
        a, b = todo.pop()
        f = fit_run(p, y, rn, a, b)
        if f is None:
            keep.append((a, b))
            continue
        if f[4]:
            return None
        stat, edge, err = statistics(p, y, rn, a, b, f[0], f[5], f[3])
        if edge:
            return None
        lim = ic - k * np.log10(min(max(f[0], 1.0), 1e4))
        if np.all(np.isnan(stat)):
            keep.append((a, b))
            continue
        m = np.nanmax(stat)
        tol = (2e-3 + 1e-6 * f[3]) * (1 + abs(m)) + 1e-3 + err
        if abs(m - lim) < tol:
            return None
        if m > lim:
            if (stat > m - tol).sum() > 1:
                return None
            i = a + int(np.nanargmax(stat))
            jumps |= {i, i + 1}
            if i > a:
                todo.append((a, i - 1))
            if i + 1 < b:
                todo.append((i + 2, b))
        else:
            keep.append((a, b))
    return jumps, keep

"""Cases for the likelihood ramp fit and a dense reference for it."""
import numpy as np
from hypothesis import strategies as st
from .gen import flagcube, gauss_like, raw8, refs, table
from .ramps import CHLOSS, DNU, JUMP, PERS, SAT, DQ, make_model

FLAGS = [DNU, JUMP, SAT, DNU, JUMP, PERS, DNU | SAT, JUMP | DNU]


@st.composite
def likely_cases(draw, min_groups=4, max_groups=12, max_ints=3, jumps=True, flags=None, zeroframe=None, npix=12):
    ngroups = draw(st.integers(min_groups, max_groups))
    nints = draw(st.integers(1, max_ints))
    nrows = draw(st.integers(1, 3))
    ncols = draw(st.integers(1, max(1, npix // nrows // nints)))
    shape = (nints, ngroups, nrows, ncols)
    ft = draw(st.sampled_from([1.0, 2.775, 10.73677, 0.05, 53.7]))
    explicit = draw(st.sampled_from([False, False, True]))
    if explicit:
        reads, t = [], 0
        for g in range(ngroups):
            n = draw(st.sampled_from([1, 1, 2, 3, 6]))
            t += draw(st.sampled_from([0, 0, 1, 4]))
            reads.append([(t + k + 1) * ft for k in range(n)])
            t += n
        nframes, gap = len(reads[0]), 0
        rt = [np.array(r) for r in reads] if draw(st.booleans()) else reads
    else:
        nframes = draw(st.sampled_from([1, 1, 2, 4, 8]))
        gap = draw(st.sampled_from([0, 0, 1, 3]))
        reads = [[(k + 1 + g * (nframes + gap)) * ft for k in range(nframes)] for g in range(ngroups)]
        rt = None
    mean_t = np.array([np.mean(r) for r in reads])
    gt = float(np.median(np.diff(mean_t)))
    rate = table(draw, (nrows, ncols), [10.0, 1.0, 100.0, 0.2, 1500.0, 0.0, -1.0]) / gt
    gain = table(draw, (nrows, ncols), [1.0, 1.8, 4.0, 0.6]).astype(np.float32)
    rn = table(draw, (nrows, ncols), [10.0, 3.0, 20.0, 45.0]).astype(np.float32)
    dark = (table(draw, (nrows, ncols), [0.0, 0.0, 0.05, 2.0]) / gt).astype(np.float32)
    bias = draw(st.sampled_from([0.0, 100.0, 1200.0]))
    n = np.array([len(r) for r in reads], dtype=float)[None, :, None, None]
    noise = gauss_like(draw, shape, 1.0) * draw(st.sampled_from([1.0, 0.0, 0.3, 2.0]))
    sig = np.sqrt((rn / np.sqrt(2)) ** 2 / n + 0.5 * np.abs(rate) * gt / gain)
    data = bias + rate * mean_t[None, :, None, None] + noise * sig
    if jumps:
        steps = flagcube(draw, shape, [1, 2, 3, 4, 5], draw(st.sampled_from([0, 12, 40, 90])))
        amp = np.array([0, 6.0, 25.0, 200.0, 3.0, -12.0])[steps] * np.sqrt((rn / np.sqrt(2)) ** 2 + np.abs(rate) * gt / gain)
        data = data + np.cumsum(amp, axis=1)
    gdq = flagcube(draw, shape, FLAGS if flags is None else flags, draw(st.sampled_from([0, 0, 20, 60, 140])))
    if draw(st.booleans()):
        gdq = gdq | np.where(np.cumsum(gdq & SAT, axis=1) > 0, SAT, 0)
    pdq = flagcube(draw, (nrows, ncols), [DNU, 1024, 2**30, SAT, JUMP, 2**24], draw(st.sampled_from([0, 60]))).astype(np.uint32)
    usez = draw(st.sampled_from([False, False, True])) if zeroframe is None else zeroframe
    zf = None
    if usez:
        zf = (bias + rate * reads[0][0] + gauss_like(draw, (nints, nrows, ncols), 1.0) * rn / np.sqrt(2)).astype(np.float32)
    thr = draw(st.sampled_from([None, None, 4.0, 5.0, 8.0, 3.0, 40.0, 1000.0]))
    return {"data": data.astype(np.float32), "gdq": gdq.astype(np.uint8), "pdq": pdq, "gain": gain, "rn": rn, "dark": dark, "zf": zf,
            "frame_time": ft, "group_time": float((nframes + gap) * ft), "nframes": int(nframes), "groupgap": int(gap), "drop": None,
            "name": "NIRCam", "suppress": False, "read_times": rt, "reads": [[float(x) for x in r] for r in reads], "thr": thr}


def call(case, ramp_data=None):
    """Runs the fit; returns products and the RampData (its groupdq gets the detected jumps)."""
    from stcal.ramp_fitting.ramp_fit import create_ramp_fit_class, ramp_fit_data
    name = "LIKELY" if len(case["reads"]) % 3 else "likely"      # the name's case does not matter
    if ramp_data is None:
        ramp_data = create_ramp_fit_class(make_model(case), name, dict(DQ))
    if case["thr"] is not None:
        ramp_data.rejection_threshold = case["thr"]
    out = ramp_fit_data(ramp_data, False, *refs(case)[::-1], name, "optimal", "none")
    return out, ramp_data


class Cov:
    """Unit covariances of the resultant differences, from the reads themselves."""
    def __init__(self, reads):
        n = len(reads)
        self.mean = np.array([np.mean(r) for r in reads])
        V = np.zeros((n, n))
        for i in range(n):
            for j in range(n):
                V[i, j] = np.minimum.outer(np.array(reads[i]), np.array(reads[j])).mean()
        R = np.diag([1.0 / len(r) for r in reads])
        self.dt = np.diff(self.mean)
        M = (np.eye(n)[1:] - np.eye(n)[:-1]) / self.dt[:, None]
        self.ph, self.rd = M @ V @ M.T, M @ R @ M.T
        self.N = np.array([len(r) for r in reads])


def gls(d, use, cov):
    """Rate, chi squared, variance and weights over the usable differences."""
    u = np.flatnonzero(use)
    C = cov[np.ix_(u, u)]
    W = np.linalg.solve(C, np.eye(len(u)))
    w = W.sum(0)
    s = w.sum()
    r = w @ d[u] / s
    res = d[u] - r
    return r, float(res @ W @ res), 1 / s, u, w / s


def chi(d, use, cov):
    return gls(d, use, cov)[:2] if use.any() else (np.nan, np.nan)


def detect(d, use, cv, gain, rn, t1, t2):
    """The documented rejection. Returns (usable after, ambiguous)."""
    g0 = max(float(np.median(d)), 0.0)
    cov = g0 / gain * cv.ph + rn**2 * cv.rd
    two_ok = cv.N[1:-1] > 1
    use = use.copy()
    amb = False
    nd = len(d)
    for it in range(nd):
        k = int(use.sum())
        if k == 0 or (it > 0 and k <= 3):
            break
        if k <= 2:
            # nothing to choose between: the remaining differences are compared with none or one other
            if k == 1:
                break
            amb = True
            break
        c0 = gls(d, use, cov)[1]
        c1 = np.full(nd, c0)
        for i in np.flatnonzero(use):
            v = use.copy()
            v[i] = False
            c1[i] = gls(d, v, cov)[1]
        c2 = np.full(nd - 1, c0)
        for i in range(nd - 1):
            if use[i] and use[i + 1]:
                v = use.copy()
                v[i] = v[i + 1] = False
                c2[i] = gls(d, v, cov)[1]
            elif use[i]:
                c2[i] = c1[i]
            elif use[i + 1]:
                c2[i] = c1[i + 1]
        d1 = c0 - c1
        d2 = (c0 - c2) * two_ok
        b1, b2 = d1.max(), d2.max() if len(d2) else 0.0
        tol = 1e-5 * (1 + c0)
        if abs((b1 - t1) - (b2 - t2)) < tol or abs(b1 - t1) < tol and b1 - t1 > b2 - t2 - tol or abs(b2 - t2) < tol and b2 - t2 > b1 - t1 - tol:
            amb = True
            break
        if b1 - t1 > b2 - t2:
            if b1 <= t1:
                break
            if (np.abs(d1 - b1) < tol).sum() != 1:
                amb = True
                break
            use[d1.argmax()] = False
        else:
            if b2 <= t2:
                break
            near = np.flatnonzero(np.abs(d2 - b2) < tol)
            if len(near) != 1:
                amb = True
                break
            i = int(near[0])
            use[i] = use[i + 1] = False
    return use, amb


def thresholds(thr):
    import scipy.special
    import scipy.stats
    if thr is None:
        return 20.25, 23.8
    t1 = thr**2
    t2 = float(scipy.stats.chi2.isf(scipy.special.erfc(thr / np.sqrt(2)), 2))
    return t1, (t1 + 10 if np.isinf(t2) else t2)


def prepare(case):
    """Reads, data and flags of every difference as the fit sees them."""
    reads = [list(r) for r in case["reads"]]
    data = case["data"]
    gdq = case["gdq"]
    zero = case["zf"] is not None and len(reads[0]) >= 2
    if zero:
        nf = np.float32(case["nframes"])
        z = case["zf"]
        first = (data[:, 0] * nf - z) / (nf - np.float32(1))
        data = np.concatenate([z[:, None], first[:, None], data[:, 1:]], axis=1)
        gdq = np.concatenate([gdq[:, :1], gdq], axis=1)
        reads = [reads[0][:1], reads[0][1:]] + reads[1:]
    cv = Cov(reads)
    d = (data[:, 1:].astype(float) - data[:, :-1]) / cv.dt[None, :, None, None]
    use = (gdq[:, 1:] == 0) & (gdq[:, :-1] == 0)
    return cv, d, use, gdq, zero

"""Generator and reference model of the linearity correction (one pixel and one sample at a time, in double precision)."""
import numpy as np
from hypothesis import strategies as st
from .gen import own, flagcube, raw8, table, uniform

SAT, NOLIN = 2, 1048576
FLAGS = {"GOOD": 0, "DO_NOT_USE": 1, "SATURATED": SAT, "NO_LIN_CORR": NOLIN}


@st.composite
def coeffs(draw, n, nr, nc, dtype, bad):
    """Polynomials close to the identity on 0..60000, with some missing or degenerate ones."""
    c = np.zeros((n, nr, nc))
    c[0] = table(draw, (nr, nc), [0.0, 0.0, 3.5, -20.0])
    c[1] = table(draw, (nr, nc), [1.0, 0.85, 1.1, 1.3, -1.0])
    for k in range(2, n):
        c[k] = table(draw, (nr, nc), [0.0, 0.1, -0.05, 0.3, 0.02]) / 60000.0 ** (k - 1)
    if bad:
        what = flagcube(draw, (nr, nc), [1, 2, 3, 4], draw(st.sampled_from([0, 60, 25])))
        where = raw8(draw, nr * nc).reshape(nr, nc) % n
        for y, x in np.argwhere(what > 0):
            w = what[y, x]
            if w == 1:
                c[where[y, x], y, x] = np.nan
            elif w == 2:
                c[1, y, x] = 0.0
            elif w == 3:
                c[:, y, x] = np.nan
            else:
                c[:, y, x] = 0.0
    return c.astype(dtype)


@st.composite
def lin_cases(draw, read=False, max_pix=60, tall=False, smooth=False):
    ni, ng = draw(st.integers(1, 3)), draw(st.integers(2 if read else 1, 6))
    if tall:
        nr, nc = draw(st.sampled_from([64, 65, 63, 128, 129, 150])), draw(st.integers(1, 2))
        ni = 1
    else:
        nr = draw(st.integers(1, 10))
        nc = draw(st.integers(1, max(1, max_pix // nr)))
    dt = draw(st.sampled_from([np.float64, np.float32]))
    cdt = draw(st.sampled_from([np.float64, np.float32]))
    n = draw(st.integers(2, 7))
    lin = draw(coeffs(n, nr, nc, cdt, True))
    ldq = flagcube(draw, (nr, nc), [NOLIN, NOLIN | 1, 1, 4096, 2**30], draw(st.sampled_from([0, 60]))).astype(np.uint32)
    pdq = flagcube(draw, (nr, nc), [1, 1024, NOLIN, 2**31], draw(st.sampled_from([0, 60]))).astype(np.uint32)
    data = uniform(draw, (ni, ng, nr, nc), -500.0, 60000.0)
    if draw(st.booleans()) or read:
        data = np.sort(data, axis=1)
    gdq = flagcube(draw, data.shape, [SAT, SAT | 1, 4, 1, SAT | 16], draw(st.sampled_from([0, 30, 90]))).astype(draw(st.sampled_from([np.uint8, np.uint32])))
    if draw(st.integers(0, 2)):       # saturation lasts
        gdq |= (np.cumsum(gdq & SAT, axis=1) > 0).astype(gdq.dtype) * gdq.dtype.type(SAT)
    z = None
    if draw(st.booleans()):
        z = uniform(draw, (ni, nr, nc), -100.0, 60000.0)
        z[table(draw, z.shape, [0, 0, 1]).astype(bool)] = 0.0
        z = z.astype(dt)
    c = {"data": data.astype(dt), "gdq": gdq, "pdq": pdq, "lin": lin, "ldq": ldq, "z": z,
         "ilin": None, "pattern": None, "satval": None, "extra": None}
    if read:
        c["ilin"] = draw(coeffs(draw(st.integers(2, 6)), nr, nc, cdt, draw(st.booleans())))
        t, pat = draw(st.integers(1, 3)), []
        for _ in range(ng):
            m = draw(st.sampled_from([1, 2, 4, 8, 3]))
            pat.append(list(range(t, t + m)))
            t += m + draw(st.sampled_from([0, 0, 1, 5]))
        c["pattern"] = pat
        if draw(st.booleans()):
            c["satval"] = table(draw, (nr, nc), [50000.0, 30000.0, 60000.0, 10000.0]).astype(dt)
        c["extra"] = draw(st.sampled_from([None, None, "column", "square"]))
    return c


def extra_fn(kind, nc):
    if kind == "column":
        w = (np.arange(nc) + 1) * 0.7
        return lambda x: np.zeros_like(x) + w
    return lambda x: 1e-7 * x * x - 2.0


def poly(c, x):
    """Polynomial value and the size of its terms (for the rounding allowance)."""
    v = m = 0.0
    for k in range(len(c)):
        v = v + c[k] * x ** k
        m = m + np.abs(c[k] * x ** k) * (k + 1)
    return v, m


def unusable(c):
    return np.isnan(c).any(axis=0) | (c[1] == 0)


def ident(c, bad):
    c = c.astype(np.float64).copy()
    c[:, bad] = 0
    c[1, bad] = 1
    return c


def bad_pixels(case):
    bad = unusable(case["lin"]) | ((case["ldq"] & NOLIN) != 0)
    if case["ilin"] is not None:
        bad |= unusable(case["ilin"])
    return bad


def call(case, tile=None):
    from stcal.linearity.linearity import linearity_correction, linearity_correction_int
    c = own(case)
    f = None if case["extra"] is None else extra_fn(case["extra"], case["data"].shape[3])
    if tile:
        bad = bad_pixels(case)
        lin, ilin = ident(case["lin"], bad), ident(case["ilin"], bad)
        return np.stack([linearity_correction_int(c["data"][i], c["gdq"][i], lin, FLAGS, ilin_coeffs=ilin, additional_correction=f,
                                                  read_pattern=c["pattern"], satval=c["satval"], tile_rows=tile)
                         for i in range(len(c["data"]))])
    return linearity_correction(c["data"], c["gdq"], c["pdq"], c["lin"], c["ldq"], FLAGS, zframe=c["z"], ilin_coeffs=c["ilin"],
                                additional_correction=f, read_pattern=c["pattern"], satval=c["satval"])


def expected_simple(data, gdq, lin):
    """Corrected samples and term sizes."""
    v, m = poly(lin, data.astype(np.float64))
    keep = (gdq & SAT) != 0
    return np.where(keep, data, v), m


def expected_read(case):
    """Read-level model: value and the magnitude of everything that is rounded on the way."""
    bad = bad_pixels(case)
    lin, ilin = ident(case["lin"], bad), ident(case["ilin"], bad)
    out = case["data"].astype(np.float64).copy()
    mag = np.zeros(out.shape)
    ni, ng, nr, nc = out.shape
    pat = case["pattern"]
    mean = [float(np.mean(p)) for p in pat]
    f = None if case["extra"] is None else extra_fn(case["extra"], nc)
    cols = np.arange(nc)
    for i in range(ni):
        for y in range(nr):
            d = case["data"][i, :, y].astype(np.float64)
            sat = (case["gdq"][i, :, y] & SAT) != 0
            L, IL = lin[:, y], ilin[:, y]
            last = np.maximum((~sat).sum(0) - 1, 2) - 1
            a, ma = poly(L, d[0])
            a, ma = np.where(sat[0], d[0], a), np.where(sat[0], np.abs(d[0]), ma)
            dl, sl = d[last, cols], sat[last, cols]
            b, mb = poly(L, dl)
            b, mb = np.where(sl, dl, b), np.where(sl, np.abs(dl), mb)
            tm = np.array(mean)[last]
            rate = (b - a) / (tm - mean[0])
            for g in range(ng):
                reads, mags = [], []
                for t in pat[g]:
                    x = a + rate * (t - mean[0])
                    mx = ma + (ma + mb) / (tm - mean[0]) * abs(t - mean[0])
                    u, mu = poly(IL, x)
                    slope = np.abs(sum(k * IL[k] * x ** (k - 1) for k in range(1, len(IL)))) + 1
                    reads.append(u)
                    mags.append(mu + slope * mx)
                off = d[g] - sum(reads) / len(reads)
                tot, mt = 0.0, 0.0
                for u, mu in zip(reads, mags):
                    w = u + off
                    mw = mu + max(mags, key=lambda q: q.max()) + np.abs(d[g])
                    if f is not None:
                        w = w + f(w)
                    if case["satval"] is not None:
                        w = np.minimum(w, 1.2 * case["satval"][y])
                    v, mv = poly(L, w)
                    slope = np.abs(sum(k * L[k] * w ** (k - 1) for k in range(1, len(L)))) + 1
                    tot, mt = tot + v, mt + mv + slope * mw
                out[i, g, y] = np.where(sat[g], d[g], tot / len(reads))
                mag[i, g, y] = mt / len(reads)
    return out, mag

"""Generator and reference model of saturation flagging."""
import numpy as np
from hypothesis import strategies as st
from .gen import own, flagcube, raw16, raw8, table

DNU, SAT, FLOOR, NOCHECK = 1, 2, 64, 2**21
FLAGS = {"DO_NOT_USE": DNU, "SATURATED": SAT, "AD_FLOOR": FLOOR, "NO_SAT_CHECK": NOCHECK}
LIMIT = 65535


@st.composite
def sat_cases(draw, averaged=None, zero=None, max_pix=64):
    ni, ng = draw(st.integers(1, 3)), draw(st.integers(1, 7))
    nr = draw(st.integers(1, 12))
    nc = draw(st.integers(1, max(1, max_pix // nr)))
    shape = (ni, ng, nr, nc)
    grow = draw(st.sampled_from([1, 0, 2, 3, 1, 5]))
    pattern = None
    if averaged is None:
        averaged = draw(st.booleans())
    if averaged:
        b = raw8(draw, 2 * ng).astype(int)
        pattern, t = [], 1
        kind = draw(st.sampled_from(["even", "any", "even", "any", "single"]))
        for g in range(ng):
            n = {"even": [4, 8, 2, 5][b[0] % 4], "any": [1, 2, 4, 8, 3][b[2 * g] % 5], "single": 1}[kind]
            t += {"even": [0, 4][b[1] % 2] if g else 0, "any": [0, 0, 1, 6][b[2 * g + 1] % 4], "single": 0}[kind]
            pattern.append(list(range(t, t + n)))
            t += n
    thr = table(draw, (nr, nc), [1000.0, 1000.0, 500.0, 2000.0, np.nan, 60000.0]).astype(np.float32)
    sdq = flagcube(draw, (nr, nc), [NOCHECK, NOCHECK | DNU, DNU, 1024], draw(st.sampled_from([0, 30, 80]))).astype(np.uint32)
    # ramps that start low and saturate at some time, or not
    rate = table(draw, (ni, 1, nr, nc), [10.0, 0.0, 60.0, 150.0, 300.0, 900.0, -40.0])
    mean_t = np.array([np.mean(p) for p in pattern]) if pattern else np.arange(1, ng + 1) * 2.0
    per = draw(st.sampled_from([1.0, 0.3, 0.1]))
    data = rate * per * mean_t[None, :, None, None]
    hits = flagcube(draw, shape, [400.0, 900.0, 2000.0, 200.0, 650.0, 45000.0], draw(st.sampled_from([0, 12, 40])))
    data = data + np.cumsum(hits, axis=1)
    # a hit part of the way through a group contributes a fraction to it
    frac = raw8(draw, ni * nr * nc).reshape(ni, nr, nc)
    when = frac.astype(int) % 16
    for g in range(ng - 1):
        part = (frac // 16 + 1) / 17.0 * 1500.0
        data[:, g] += np.where(when == g, part, 0)
        data[:, g + 1:] += np.where(when == g, 1500.0, 0)[:, None]
    dip = flagcube(draw, shape, [1, 2, 3], draw(st.sampled_from([0, 8, 30])))
    data = np.rint(data)
    data = np.where(dip == 1, 0.0, np.where(dip == 2, -5.0, np.where(dip == 3, np.nan if draw(st.booleans()) else 1000.0, data)))
    bias = None
    if averaged and draw(st.booleans()):
        bias = table(draw, (nr, nc), [100.0, 0.0, 300.0]).astype(np.float32)
        data = data + bias
    data = np.minimum(data, LIMIT).astype(np.float32)
    gdq = flagcube(draw, shape, [DNU, SAT, 4, 16, DNU], draw(st.sampled_from([0, 0, 10, 50]))).astype(draw(st.sampled_from([np.uint32, np.uint8])))
    pdq = flagcube(draw, (nr, nc), [DNU, 1024, 2**20], draw(st.sampled_from([0, 40]))).astype(np.uint32)
    z = None
    if zero or (zero is None and draw(st.booleans())):
        z = table(draw, (ni, nr, nc), [50.0, 0.0, -3.0, 700.0, 1000.0, 1500.0, 50.0, 60.0, 2500.0]).astype(np.float32)
    four = draw(st.integers(0, 3)) == 0
    if four:       # per-integration and per-group reference data
        thr = np.broadcast_to(thr, shape).copy()
        alt = table(draw, (ni, 1 if averaged or draw(st.booleans()) else ng, nr, nc), [1.0, 1.0, 0.5, 1.5]).astype(np.float32)
        thr = thr * alt
        sdq = np.broadcast_to(sdq, shape).copy()
        pdq = np.broadcast_to(pdq, shape).copy()
        if bias is not None:
            bias = np.broadcast_to(bias, shape) * table(draw, (ni, 1, 1, 1), [1.0, 3.0, 0.5]).astype(np.float32)
    return {"data": data, "gdq": gdq, "pdq": pdq, "thr": thr, "sdq": sdq, "grow": grow, "pattern": pattern, "bias": bias, "z": z}


def call(case):
    from stcal.saturation.saturation import flag_saturated_pixels
    c = own(case)
    out = flag_saturated_pixels(c["data"], c["gdq"], c["pdq"], c["thr"], c["sdq"], LIMIT, FLAGS, n_pix_grow_sat=c["grow"],
                                zframe=c["z"], read_pattern=c["pattern"], bias=c["bias"])
    return out + (np.array_equal(c["data"], case["data"], equal_nan=True),)


def grow(m, n):
    """Square dilation by n pixels."""
    if n <= 0 or not m.any():
        return m.copy()
    out = np.zeros_like(m)
    nr, nc = m.shape
    for y, x in np.argwhere(m):
        out[max(0, y - n):y + n + 1, max(0, x - n):x + n + 1] = True
    return out


def expected(case, stats=None):
    """gdq, open DNU decisions, pdq, zero frame"""
    ni, ng, nr, nc = case["data"].shape
    full = lambda a: np.broadcast_to(a, case["data"].shape)
    unchecked = np.isnan(case["thr"]) | ((case["sdq"] & NOCHECK) != 0)
    thr = full(np.where(unchecked, LIMIT + 1, case["thr"]).astype(np.float64))
    unc = full(unchecked)
    pdq = case["pdq"] | case["sdq"] | np.where(unchecked, NOCHECK, 0).astype(np.uint32)
    d = case["data"].astype(np.float64)
    g = case["gdq"].astype(np.int64).copy()
    open_ = np.zeros(g.shape, bool)
    n = case["grow"]
    for i in range(ni):
        prev = np.zeros((nr, nc), bool)
        for k in range(ng):
            with np.errstate(invalid="ignore"):
                prev |= d[i, k] >= thr[i, k]
                low = d[i, k] <= 0
            s = grow(prev | ((g[i, k] & SAT) != 0), n)
            g[i, k] |= np.where(s, SAT, 0) | np.where(low, DNU | FLOOR, 0)
        if case["pattern"] is not None:
            for k in range(ng - 2, -1, -1):
                p = case["pattern"][k]
                dil = np.where(unc[i, k], 1.0, np.mean(p) / p[-1])
                if p[0] == p[-1]:
                    continue
                lim = thr[i, k] * dil
                cand = ((g[i, k] & (SAT | DNU)) == 0) & ((g[i, k + 1] & SAT) != 0)
                with np.errstate(invalid="ignore"):
                    hit = cand & (d[i, k] >= lim)
                    near = cand & (np.abs(d[i, k] - lim) < 1e-6 * np.abs(lim)) & (d[i, k] != lim)
                open_[i, k] |= grow(near, n) & ~grow(hit & ~near, n)
                g[i, k] |= np.where(grow(hit, n), DNU, 0)
            if ng > 2:
                b = 0.0 if case["bias"] is None else full(case["bias"])[i, 0].astype(float)
                p = case["pattern"]
                t2 = thr[i, 0]
                with np.errstate(invalid="ignore"):
                    pred = (d[i, 0] - b) / np.mean(p[0]) * p[2][-1] + b
                    step, room = d[i, 1] - d[i, 0], (t2 - d[i, 0]) / len(p[1])
                    late = ((g[i, 2] & SAT) != 0) & ((g[i, 1] & SAT) == 0)
                    hit = late & (pred < t2) & (step > room)
                    near = late & ((np.abs(pred - t2) < 1e-5 * (np.abs(t2) + np.abs(pred))) | (np.abs(step - room) < 1e-5 * (np.abs(t2) + np.abs(d[i, 0]))))
                open_[i, 1] |= near & ((g[i, 1] & DNU) == 0)
                if stats is not None:
                    stats['second'] = stats.get('second', 0) + int((hit & ((g[i, 1] & DNU) == 0)).sum())
                g[i, 1] |= np.where(hit, DNU, 0)
    z = None
    if case["z"] is not None:
        z = case["z"].copy()
        for i in range(ni):
            sat = grow(z[i] >= thr[i, 0], n)
            z[i][sat | (case["z"][i] <= 0)] = 0
    return g, open_, pdq, z

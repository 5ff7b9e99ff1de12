"""Independent reference of the OLS ramp fit (from docs/stcal/ramp_fitting/description.rst)."""
import math
import numpy as np
from .ramps import CHLOSS, DNU, JUMP, NOGAIN, PERS, SAT

BIG = 1.0e6
POWERS = [(5.0, 0.0), (10.0, 0.4), (20.0, 1.0), (50.0, 3.0), (100.0, 6.0)]


def power_of(snr):
    for lim, p in POWERS:
        if snr < lim:
            return p
    return 10.0


def near_limit(snr):
    return any(abs(snr - lim) < 1e-5 * lim for lim, _ in POWERS)


def segments(dq):
    """[(start, end)] of the usable runs of groups; a hit may open a run."""
    segs, n, k = [], len(dq), 0
    ok = [(int(d) & ~PERS) == 0 for d in dq]
    while k < n:
        if ok[k]:
            s = k
            while k < n and ok[k]:
                k += 1
            if s > 0 and (int(dq[s - 1]) & ~PERS) == JUMP:
                s -= 1
            segs.append((s, k))
        else:
            k += 1
    if len(segs) > 1:
        longs = [s for s in segs if s[1] - s[0] > 1]
        segs = longs if longs else segs[:1]
    return segs


def wls(x, y, w):
    """Weighted straight line through (x, y): slope, intercept, their sigmas (weights = inverse variances)."""
    sw, sx, sxx = w.sum(), (w * x).sum(), (w * x * x).sum()
    xm, ym = sx / sw, (w * y).sum() / sw
    sxxc = (w * (x - xm) ** 2).sum()
    b = (w * (x - xm) * (y - ym)).sum() / sxxc
    return b, ym - b * xm, math.sqrt(1.0 / sxxc), math.sqrt(sxx / (sw * sxxc))


def inv(v):
    return 1.0 / v if v != 0 else math.inf


class Pixel:
    pass


def fit_pixel(data, dq, pdq, gain, rn, dark, zf, meta, suppress, orig=None):
    """data, dq: (nints, ngroups). rn: read noise scaled by gain/sqrt(2 nframes).  Returns a Pixel."""
    nints, ngroups = data.shape
    tg, tf, nfr = meta["group_time"], meta["frame_time"], meta["nframes"]
    t1 = (nfr + 1) * tf / 2.0
    data = data.astype(float).copy()
    dq = dq.astype(int).copy()
    pdq = int(pdq)
    if not gain > 0:
        pdq |= DNU | NOGAIN
    P = Pixel()
    P.ambiguous = False
    P.idq = [pdq] * nints
    P.dq = pdq
    is0, isz = [False] * nints, [False] * nints
    data[(dq & SAT) > 0] = np.nan
    nsat = ((dq & SAT) > 0).sum(1)
    nbad = ((dq & (SAT | DNU)) > 0).sum(1)
    P.crmag = []
    had_cl = [bool((dq[i] & CHLOSS).any()) for i in range(nints)]
    for i in range(nints):
        crs = [data[i, g] - data[i, g - 1] for g in range(1, ngroups) if dq[i, g] & JUMP]
        P.crmag.append(crs)
        fl = int(np.bitwise_or.reduce(dq[i])) & (JUMP | PERS)
        P.idq[i] |= fl
        P.dq |= fl
    dq0 = dq.copy()
    if not suppress:
        for i in range(nints):
            good = (dq[i] & ~PERS) == 0
            if good.sum() == 1 and good[0]:
                is0[i] = True
            elif good.sum() == 0 and zf is not None and zf[i] != 0:
                isz[i] = True
                data[i, 0] = zf[i]
                dq[i, 0] = 0
                nbad[i] -= 1
                if nsat[i] == ngroups:
                    nsat[i] -= 1
    # median rate
    rates = []
    for i in range(nints):
        if is0[i]:
            r = data[i, 0] / t1
        elif isz[i]:
            r = data[i, 0] / tf
        elif ngroups == 1:
            r = np.nan if dq[i, 0] & DNU else data[i, 0] / t1
        else:
            v = np.where(dq[i] & DNU, np.nan, data[i]) / tg
            d = np.diff(v)
            d[(dq[i, 1:] & JUMP) > 0] = np.nan
            if np.isnan(d).all():
                r = v[0]
            else:
                r = np.nanmedian(d)
        rates.append(0.0 if np.isnan(r) else r)
    med = sum(rates) / nints
    P.median = med
    pois = (max(med, 0.0) + dark) if med > 0 else dark
    P.isl, P.ivp, P.ivr, P.ierr, P.segs, P.ped = [], [], [], [], [], []
    sum_p = sum_r = sum_s = 0.0
    dnu_cnt = sat_cnt = 0
    P.special = any(is0) or any(isz)
    with np.errstate(all="ignore"):
        for i in range(nints):
            slope, vp, vr, er = 0.0, 0.0, 0.0, 0.0
            info = []
            firstsat = bool(dq[i, 0] & SAT)
            if firstsat:
                P.idq[i] |= DNU | SAT
                segs = []
            else:
                segs = segments(dq[i])
            if nbad[i] == ngroups:
                P.idq[i] |= DNU
                if nsat[i] == ngroups:
                    P.idq[i] |= SAT
                keep = False
            else:
                keep = bool(segs)
            if not segs:
                P.idq[i] |= DNU          # nothing usable in this integration
            if keep:
                ip = ir = ie = s_num = 0.0
                for a, b in segs:
                    n = b - a
                    if n == 1:
                        t = tg
                        if not suppress:
                            t = t1 if is0[i] else tf if isz[i] else tg
                        s = data[i, a] / t
                        svp = np.float64(pois) / (t * gain)
                        svr = 12 * (rn / t) ** 2 / (6 * gain**2)
                        yint = sigy = sigs = 0.0
                    elif n == 2:
                        s = (data[i, a + 1] - data[i, a]) / tg
                        svp = np.float64(pois) / (tg * gain)
                        svr = 12 * (rn / tg) ** 2 / (6 * gain**2)
                        sigs = sigy = math.sqrt(2) * rn
                        yint = data[i, a] - s * tg * a
                    else:
                        y = data[i, a:b]
                        diff = y[-1] - y[0]
                        den = rn * rn + diff * gain
                        snr = 0.0 if den <= 0 or gain == 0 else max(0.0, diff * gain / math.sqrt(den)) if not np.isnan(den) else np.nan
                        if gain > 0 and near_limit(snr):
                            P.ambiguous = True
                        p = power_of(snr)
                        mid = (n - 1) / 2.0
                        w = np.abs((np.arange(n) - mid) / mid) ** p / (rn * rn)
                        bb, yint, sigs, sigy = wls(np.arange(a, b, dtype=float), y, w)
                        s = bb / tg
                        svp = np.float64(pois) / (tg * gain * (n - 1))
                        svr = 12 * (rn / tg) ** 2 / ((n**3 - n) * gain**2)
                    ir += inv(svr)
                    if svp > 0:
                        ip += inv(svp)
                    ie += inv(svp + svr)
                    s_num += s / svr
                    info.append(dict(a=a, b=b, slope=s, var_p=svp, var_r=svr, yint=yint, sigyint=sigy, sigslope=sigs, weight=inv(svr)))
                vp = inv(ip) if ip > 0 else 0.0
                if vp >= BIG:
                    vp = 0.0
                vr = inv(ir)
                if vr >= BIG:
                    vr = 0.0
                slope = s_num / ir
                if P.idq[i] & (DNU | SAT):
                    slope, vp, vr, er = np.nan, 0.0, 0.0, 0.0
                else:
                    er = inv(ie)
                    er = 0.0 if er > BIG else math.sqrt(er) if er >= 0 else np.nan
                sum_p += ip
                sum_r += ir
                sum_s += s_num
            if P.idq[i] & DNU:
                dnu_cnt += 1
                slope = np.nan
            if P.idq[i] & SAT:
                ped = 0.0
            else:
                ped = data[i, 0] - slope * ((nfr + 1) / 2.0 + (meta["drop"] or 0)) / (nfr + meta["groupgap"])
                if np.isnan(ped):
                    ped = 0.0
            if P.idq[i] & SAT:
                sat_cnt += 1
                slope = np.nan
            if nsat[i] > 0:
                P.idq[i] |= SAT
            P.isl.append(slope)
            P.ivp.append(vp)
            P.ivr.append(vr)
            P.ierr.append(er)
            P.segs.append(info)
            P.ped.append(ped)
        if dnu_cnt == nints:
            P.dq |= DNU
        if sat_cnt == nints:
            P.dq |= SAT
        P.vp = inv(sum_p) if sum_p > 0 else 0.0
        P.vr = inv(sum_r) if sum_r > 0 else 0.0
        P.sl = sum_s / sum_r if sum_r > 0 else np.nan
        if P.vp >= BIG:
            P.vp = 0.0
        if P.vr >= BIG:
            P.vr = 0.0
        P.err = math.sqrt(P.vp + P.vr) if not np.isnan(P.vp + P.vr) else np.nan
        if P.dq & (DNU | SAT):
            P.sl, P.vp, P.vr, P.err = np.nan, 0.0, 0.0, 0.0
        if nsat.any():
            P.dq |= SAT
        P.valid = gain > 0
        # read noise the ramp would have without the charge-loss flags
        if orig is not None and any(had_cl):
            tot = 0.0
            for i in range(nints):
                if not had_cl[i]:
                    if P.ivr[i] > 0:
                        tot += inv(P.ivr[i])
                    continue
                o = orig[i].astype(int)
                o = np.where(o & CHLOSS, o ^ (DNU | CHLOSS), o)
                iv = 0.0
                for a, b in segments(o):
                    n = b - a
                    if n == 1:
                        t = tg
                        if not suppress:
                            t = t1 if is0[i] else tf if isz[i] else tg
                        v = 12 * (rn / t) ** 2 / (6 * gain**2)
                    elif n == 2:
                        v = 12 * (rn / tg) ** 2 / (6 * gain**2)
                    else:
                        v = 12 * (rn / tg) ** 2 / ((n**3 - n) * gain**2)
                    if v > 0:
                        iv += inv(v)
                P.ivr[i] = inv(iv)
                if P.ivr[i] >= BIG:
                    P.ivr[i] = 0.0
                tot += iv
            if tot > 0:
                P.vr = inv(tot)
            if P.vr >= BIG:
                P.vr = 0.0
    return P


def miri_discard(case):
    """The documented MIRI rule: leading/trailing groups that are unusable for every pixel are dropped."""
    data, gdq = case["data"], case["gdq"].copy()
    lo, hi = 0, data.shape[1]
    while (gdq[:, lo] & DNU).all():
        lo += 1
        if lo >= hi:
            return None
        gdq[:, lo] &= ~np.uint8(JUMP)
    if (gdq[:, hi - 1] & DNU).all():
        hi -= 1
        if hi <= lo:
            return None
    if hi - lo < 2:
        return None
    return lo, hi, gdq


def fit(case):
    """Reference of the whole call: dict of arrays, or None when nothing can be fitted."""
    data, gdq, pdq, gain = case["data"], case["gdq"], case["pdq"], case["gain"]
    orig = gdq if (gdq & CHLOSS).any() else None
    suppress = bool(case["suppress"]) and data.shape[1] > 1
    gdq = gdq.copy()
    if suppress:
        one = ((gdq & np.uint8(0xFF & ~PERS)) == 0).sum(axis=1) == 1
        gdq = np.where(one[:, None], gdq | np.uint8(DNU), gdq)
    if case["name"] == "MIRI" and data.shape[1] > 1:
        r = miri_discard(dict(case, gdq=gdq))
        if r is None:
            return None
        lo, hi, gdq = r
        data, gdq = data[:, lo:hi], gdq[:, lo:hi]
        orig = orig[:, lo:hi] if orig is not None else None
    if (gdq[:, 0] & SAT).all():
        return None
    nints, ngroups, nr, nc = data.shape
    rn = (case["rn"] * (gain / np.sqrt(2.0 * case["nframes"]))).astype(np.float32).astype(float)
    out = {k: np.zeros((nr, nc)) for k in ("slope", "var_poisson", "var_rnoise", "err")}
    iout = {k: np.zeros((nints, nr, nc)) for k in ("slope", "var_poisson", "var_rnoise", "err")}
    out["dq"], iout["dq"] = np.zeros((nr, nc), np.int64), np.zeros((nints, nr, nc), np.int64)
    pix = {}
    ambiguous = np.zeros((nr, nc), bool)
    meta = {k: case[k] for k in ("frame_time", "group_time", "nframes", "groupgap", "drop")}
    meta["frame_time"] = float(np.float32(meta["frame_time"]))
    meta["group_time"] = float(np.float32(meta["group_time"]))
    for r in range(nr):
        for c in range(nc):
            zf = None if case["zf"] is None else case["zf"][:, r, c].astype(float)
            p = fit_pixel(data[:, :, r, c], gdq[:, :, r, c], pdq[r, c], float(gain[r, c]), rn[r, c],
                          float(case["dark"][r, c]), zf, meta, suppress, None if orig is None else orig[:, :, r, c])
            pix[r, c] = p
            ambiguous[r, c] = p.ambiguous
            out["slope"][r, c], out["dq"][r, c], out["var_poisson"][r, c] = p.sl, p.dq, p.vp
            out["var_rnoise"][r, c], out["err"][r, c] = p.vr, p.err
            iout["slope"][:, r, c], iout["dq"][:, r, c] = p.isl, p.idq
            iout["var_poisson"][:, r, c], iout["var_rnoise"][:, r, c], iout["err"][:, r, c] = p.ivp, p.ivr, p.ierr
    return {"image": out, "integ": iout, "pix": pix, "ambiguous": ambiguous, "used": (nints, ngroups, nr, nc),
            "data": data, "gdq": gdq}

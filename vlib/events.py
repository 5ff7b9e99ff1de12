"""Reference model of clusters, grown ellipses, snowballs and showers."""
import math
import numpy as np
from scipy import ndimage as ndi

DNU, SAT, JUMP, REF = 1, 2, 4, 128


class Fragile(Exception):
    """The outcome hangs on rounding."""


def clusters(mask, min_area):
    """(centre column, centre row, minor, major, angle from rows to columns) of 8-connected clusters, holes counted."""
    lab, n = ndi.label(mask, structure=np.ones((3, 3)))
    out = []
    for k, sl in enumerate(ndi.find_objects(lab), 1):
        sub = lab[sl] == k
        if ndi.binary_fill_holes(sub, structure=np.ones((3, 3))).sum() < min_area:
            continue
        rr, cc = np.nonzero(sub)
        r0, c0 = rr.mean(), cc.mean()
        vr, vc, vrc = ((rr - r0)**2).mean(), ((cc - c0)**2).mean(), ((rr - r0) * (cc - c0)).mean()
        mid, dif = (vr + vc) / 2, math.hypot((vr - vc) / 2, vrc)
        major, minor = 4 * math.sqrt(mid + dif), 4 * math.sqrt(max(mid - dif, 0.0))
        ang = 0.5 * math.atan2(2 * vrc, vr - vc)         # from the row axis towards columns
        out.append((c0 + sl[1].start, r0 + sl[0].start, minor - 1, major - 1, ang))
    return out


def rnd(v):
    f = abs(v) % 1
    if abs(f - 0.5) < 1e-9 and f != 0.5:
        raise Fragile
    if abs(f - 0.5) < 1e-12:
        # exactly half: Python rounds to even, but the value came from a square root
        pass
    return round(v)


def rnd_len(v):
    if abs(abs(v) % 1 - 0.5) < 1e-9:
        raise Fragile
    return round(v)


def ellipse(shape, cl, full_minor, full_major):
    """(inside, on the border) of the ellipse with these full axes about the cluster's rounded centre."""
    x, y = rnd(cl[0]), rnd(cl[1])
    a, b = rnd_len(full_minor / 2), rnd_len(full_major / 2)
    if a <= 0 or b <= 0:
        if a < 0 or b < 0:
            raise Fragile
        z = np.zeros(shape, bool)
        return z, z.copy()
    r, c = np.mgrid[:shape[0], :shape[1]]
    r, c = r - y, c - x
    co, si = math.cos(cl[4]), math.sin(cl[4])
    d = ((r * co + c * si) / b)**2 + ((r * si - c * co) / a)**2
    edge = np.abs(d - 1) < 1e-7
    return (d < 1) & ~edge, edge


def grown(shape, cl, factor, max_width):
    h, w = cl[2], cl[3]
    if h <= 0:
        raise Fragile
    add = (factor - 1) * h
    a, b = min(h + add, max_width), min(w + add, max_width)
    # half axes are rounded to whole pixels
    return ellipse(shape, cl, 2 * rnd_len(a / 2), 2 * rnd_len(b / 2))


def inside(x, y, cl):
    dx, dy = x - cl[0], y - cl[1]
    co, si = math.cos(cl[4]), math.sin(cl[4])
    u, v = dy * co + dx * si, dy * si - dx * co
    if cl[2] == 0:
        raise Fragile
    d = (u / (cl[3] / 2))**2 + (v / (cl[2] / 2))**2
    if abs(d - 1) < 1e-9:
        raise Fragile
    return d <= 1


def large_events(gdq, p):
    """Expected flags after flagging large events, the samples left open, and the number of events."""
    g = gdq.astype(int).copy()
    ni, ng, nr, nc = g.shape
    open_ = np.zeros(g.shape, bool)
    persist = np.zeros((ni, nr, nc), bool)
    p_open = np.zeros((ni, nr, nc), bool)
    total = 0
    sizes = []
    for i in range(ni):
        for k in range(1, ng):
            sat = (g[i, k] & SAT) != 0
            prev = (g[i, k - 1] & SAT) != 0
            new = clusters(sat & ~prev, p["min_sat_area"])
            nxt = clusters(((g[i, k + 1] & SAT) != 0) & ~sat, p["min_sat_area"]) if k + 1 < ng else []
            jumps = clusters((g[i, k] & JUMP) != 0, p["min_jump_area"])
            if p["sat_required"]:
                e = p["edge_size"]
                events = []
                for cl in jumps:
                    if cl[0] < e or cl[1] < e or cl[0] > max(0, nc - e) or cl[1] > max(0, nr - e):
                        events.append(cl)
                    elif any(inside(s[0], s[1], cl) for s in new + nxt):
                        events.append(cl)
                for s in new:
                    if s[2] > p["min_sat_radius_extend"]:
                        big, edge = ellipse((nr, nc), s, min(s[2] + p["sat_expand"], p["max_width"]), min(s[3] + p["sat_expand"], p["max_width"]))
                        # rounding at the border decides clusters found later
                        if (edge & (g[i, k:] & SAT == 0).any(0)).any():
                            if (edge & ((g[i, k + 1:] & (JUMP | SAT)) != 0).any(0) & ((g[i, k] & SAT) == 0)).any():
                                raise Fragile
                            open_[i, k:] |= edge
                        for q in range(k, ng):
                            g[i, q][big] = g[i, q][big] & ~JUMP | SAT
                        core, edge = ellipse((nr, nc), s, s[2], s[3])
                        persist[i] |= core
                        p_open[i] |= edge
            else:
                events = jumps
            total += len(events)
            for cl in events:
                fp, edge = grown((nr, nc), cl, p["expand_factor"], p["max_width"])
                ok = (g[i, k] & SAT) == 0
                g[i, k][fp & ok] |= JUMP
                open_[i, k] |= edge & ok
                sizes.append(int(fp.sum()))
    if p["mask_next"]:
        n = min(p["persist_grps"], ng)
        for i in range(1, ni):
            g[i, 1:n] |= np.where(persist[i - 1], JUMP, 0)
            open_[i, 1:n] |= p_open[i - 1] & ~persist[i - 1]
    return g, open_, total, sizes


def showers(data, gdq, pdq, rn, p):
    """Expected flags after the shower search on electrons `data`; flags left open; number of showers; details."""
    g = gdq.astype(int).copy()
    ni, ng, nr, nc = g.shape
    open_ = np.zeros(g.shape, bool)
    info = {"reverted": 0, "flagged": 0}
    alld = ((g & DNU) != 0).all(axis=(2, 3))
    if ni * (ng - 1) - int(alld.sum()) < 10:
        return g, open_, 0, info
    bad = (g & (DNU | SAT | JUMP)) != 0
    d = np.diff(np.where(bad, np.float32(np.nan), data), axis=1).astype(float)
    if ni >= p["min_sig"]:
        centre, sd = np.full((ng - 1, nr, nc), np.nan), np.full((ng - 1, nr, nc), np.nan)
        for idx in np.ndindex(ng - 1, nr, nc):
            v = d[(slice(None),) + idx]
            v = v[v == v]
            if len(v):
                centre[idx], sd[idx] = np.median(v), math.sqrt(((v - v.mean())**2).mean())
        ratio = [np.abs(d[i] - centre) for i in range(ni)]
    else:
        med = np.full((nr, nc), np.nan)
        for y in range(nr):
            for x in range(nc):
                v = d[:, :, y, x]
                v = v[v == v]
                if v.size:
                    med[y, x] = np.median(v)
        sd = np.broadcast_to(np.sqrt(np.abs(med) + rn.astype(float)**2 / p["nframes"]), (ng - 1, nr, nc))
        ratio = [np.abs(d[i] - med) for i in range(ni)]
    work = g.copy()
    refs = pdq == REF
    work[:, :, refs] = DNU
    found = []
    for i in range(ni):
        good_groups = [k for k in range(ng) if not ((work[i, k] & DNU) != 0).all()]
        if not good_groups:
            good_groups = [0]
        for k in range(good_groups[0] + 1, ng):
            with np.errstate(all="ignore"):
                r = ratio[i][k - 1] / sd[k - 1]
            masked = ((work[i, k] | pdq.astype(np.int64)) & (DNU | SAT | JUMP)) != 0
            ok = np.isfinite(r) & ~masked
            # nearly vanishing noise turns rounding into signal
            with np.errstate(all="ignore"):
                if (ok & (sd[k - 1] < 1e-3)).any():
                    raise Fragile
            ex = smooth_excess(np.where(ok, r, 0.0), ok, p["kernel"])
            if (np.abs(ex - p["snr"]) < 2e-4 * (1 + p["snr"])).any():
                raise Fragile
            found += [(i, k, cl) for cl in clusters(ex > p["snr"], p["min_area"])]
    out = g.copy()
    for i, k, cl in found:
        fp, edge = grown((nr, nc), cl, p["ratio"], p["max_width"])
        sat_seen = np.zeros((nr, nc), bool)
        for q in range(k, min(k + p["after"] + 1, ng)):
            sat_seen |= (out[i, q] & SAT) != 0
            out[i, q][fp & ~sat_seen] |= JUMP
            open_[i, q] |= edge & ~sat_seen
    # reference pixels see no showers
    out[:, :, refs] = g[:, :, refs]
    open_[:, :, refs] = False
    info["flagged"] = int((out != g).sum())
    # give up flags that would change the rate of the pixel too much
    open_pix = open_.any(1)
    for i in range(ni):
        for y in range(nr):
            for x in range(nc):
                if not (out[i, :, y, x] != g[i, :, y, x]).any() and not open_pix[i, y, x]:
                    continue
                rates = []
                for fl in (g, out):
                    b = (fl[i, :, y, x] & (DNU | SAT | JUMP)) != 0
                    v = np.diff(np.where(b, np.nan, data[i, :, y, x].astype(float)))
                    v = v[v == v]
                    rates.append(v.mean() if len(v) else np.nan)
                chg = abs(rates[0] - rates[1])
                if open_pix[i, y, x] or abs(chg - p["amp"]) < 1e-3 * (p["amp"] + np.nanmax(np.abs(rates + [0]))):
                    open_[i, :, y, x] = True
                if not (chg <= p["amp"]):
                    out[i, :, y, x] = g[i, :, y, x]
                    info["reverted"] += 1
    return out, open_, len(found), info


def smooth_excess(v, ok, kernel):
    """Average of the valid values under the kernel; zero beyond the image; NaN where the pixel itself is not valid."""
    n, m = kernel.shape[0] // 2, kernel.shape[1] // 2
    pv = np.pad(v, ((n, n), (m, m)))
    po = np.pad(ok.astype(float), ((n, n), (m, m)), constant_values=1.0)
    num, den = np.zeros(v.shape), np.zeros(v.shape)
    for a in range(kernel.shape[0]):
        for b in range(kernel.shape[1]):
            w = kernel[kernel.shape[0] - 1 - a, kernel.shape[1] - 1 - b]
            num += w * pv[a:a + v.shape[0], b:b + v.shape[1]]
            den += w * po[a:a + v.shape[0], b:b + v.shape[1]]
    good = ok & (den > 1e-3 * kernel.mean())
    with np.errstate(all="ignore"):
        return np.where(good, num / den, np.nan)

"""Generator and reference model of the two-point-difference jump detection."""
import math
import numpy as np
from hypothesis import strategies as st
from .gen import flagcube, own, raw8, refs, table, weighted
from .ramps import inprocess_pool

GOOD, DNU, SAT, JUMP, NGV, REF = 0, 1, 2, 4, 8, 128
FLAGS = {"GOOD": 0, "DO_NOT_USE": 1, "SATURATED": 2, "JUMP_DET": 4, "NO_GAIN_VALUE": 8, "REFERENCE_PIXEL": 128}


class _NS:
    def __init__(self, **k):
        self.__dict__.update(k)


@st.composite
def jump_cases(draw, spread=True, min_rows=1, max_rows=6, max_cols=6, max_groups=14, max_ints=3, preset=True, mode=None,
               max_samples=1200, simple_gain=False, other=True):
    mode = mode or draw(weighted((4, "iterative"), (2, "single pass"), (2, "sigclip"), (1, "uneven"), (1, "uneven1")))
    ngroups = draw(st.integers(2 if not mode.startswith("uneven") else 3, max_groups))
    nints = draw(st.integers(1, max_ints if mode != "sigclip" else 9))
    nrows = draw(st.integers(min_rows, max_rows))
    ncols = draw(st.integers(1, max(1, min(max_cols, max_samples // (ngroups * nints * nrows)))))
    shape = (nints, ngroups, nrows, ncols)
    pattern = None
    nframes = draw(st.sampled_from([1, 4, 8]))
    if mode.startswith("uneven") or draw(st.integers(0, 9)) == 0:
        b = raw8(draw, 2 * ngroups).astype(int)
        if not mode.startswith("uneven"):
            b = np.full(2 * ngroups, b[0])
        pattern, t = [], 1
        for g in range(ngroups):
            n = [1, 2, 1, 4, 8][b[2 * g] % 5]
            t += [0, 0, 1, 3][b[2 * g + 1] % 4]
            pattern.append(list(range(t, t + n)))
            t += n
        times = np.array([np.mean(p) for p in pattern])
    else:
        times = np.arange(ngroups, dtype=float)
    dt = np.diff(times)
    rate = table(draw, (nrows, ncols), [10.0, 0.5, 3.0, 40.0, 300.0, 0.0, -2.0])
    noise = draw(st.sampled_from([1.0, 0.0, 0.0, 4.0, 20.0]))
    quant = draw(st.booleans())
    nd = nints * (ngroups - 1) * nrows * ncols
    z = raw8(draw, nd).reshape(nints, ngroups - 1, nrows, ncols).astype(float)
    incr = rate * dt[None, :, None, None] + (z - 127.5) / 64 * noise + (z % 8 - 3.5) / 30 * np.sqrt(np.abs(rate)) * (noise > 0)
    steps = flagcube(draw, incr.shape, [40.0, 120.0, 700.0, 5000.0, -60.0, 15.0, 25.0, 120.0], draw(st.sampled_from([20, 0, 70, 140])))
    data = np.zeros(shape)
    data[:, 1:] = np.cumsum(incr + steps, axis=1)
    data += draw(st.sampled_from([0.0, 10.0, 1500.0]))
    if quant:
        data = np.rint(data)
    gdq = flagcube(draw, shape, [DNU, DNU, SAT, DNU | 64] + ([JUMP, 16] if preset else []), draw(st.sampled_from([0, 0, 12, 60])))
    gdq = np.asarray(gdq, dtype=np.int64)
    first = raw8(draw, nints * nrows * ncols).reshape(nints, 1, nrows, ncols).astype(int)
    if draw(st.booleans()):
        first = np.where(first > 150, (first - 150) * (ngroups + 1) // 106, 99)
        gdq |= np.where(np.arange(ngroups)[None, :, None, None] >= first, SAT, 0)
    gdq |= np.where(np.cumsum(gdq & SAT, axis=1) > 0, SAT, 0)
    whole = draw(st.sampled_from([0, 0, 0, 1, 2, 3]))
    for k in range(whole):
        i, g = draw(st.integers(0, nints)), draw(st.sampled_from([0, ngroups - 1, ngroups // 2]))
        gdq[(i if i < nints else slice(None)), g] |= DNU
    gain = table(draw, (nrows, ncols), [1.0, 1.0, 4.0, 1.7, 0.5]) if not simple_gain else np.ones((nrows, ncols))
    bad = flagcube(draw, (nrows, ncols), [1, 2, 3], draw(st.sampled_from([0, 0, 25])))
    gain = np.where(bad == 1, 0.0, np.where(bad == 2, -1.5, np.where(bad == 3, np.nan, gain))).astype(np.float32)
    rn = table(draw, (nrows, ncols), [5.0, 1.0, 12.0, 0.3, 0.0, 30.0]).astype(np.float32)
    pdq = flagcube(draw, (nrows, ncols), [DNU, 1024, 2**20], draw(st.sampled_from([0, 40]))).astype(np.uint32)
    sp = spread and draw(weighted((5, True), (1, False)))
    c = {"mode": mode, "data": data.astype(np.float32), "gdq": gdq.astype(np.uint8), "pdq": pdq, "gain": gain, "rn": rn,
         "nframes": nframes, "pattern": pattern,
         "thr": [draw(st.sampled_from([4.0, 3.0, 5.5, 2.0])), draw(st.sampled_from([6.0, 4.0, 2.5])), draw(st.sampled_from([5.0, 3.5, 2.2]))],
         "single": {"single pass": 3, "uneven1": 2}.get(mode, 50) if draw(st.booleans()) or mode == "iterative" else 10,
         "min_groups": draw(st.sampled_from([3, 3, 2, 5, 1])),
         "min_sig": 100, "use_ints": draw(st.booleans()),
         "four": bool(sp and draw(weighted((3, True), (1, False)))),
         "nmax": draw(st.sampled_from([1000.0, 50.0, 12.0])), "nmin": draw(st.sampled_from([10.0, 3.0, 5.0, 0.0])),
         "after": [draw(st.sampled_from([0.0, 10.0, 100.0, 600.0])), draw(st.sampled_from([0, 1, 2, 5, 30])),
                   draw(st.sampled_from([1000.0, 0.0, 300.0])), draw(st.sampled_from([0, 3, 1, 12]))] if sp else [0.0, 0, 0.0, 0]}
    if mode == "sigclip":
        c["min_sig"] = draw(st.sampled_from([3, 2, 5])) if c["use_ints"] else draw(st.sampled_from([4, 8, 15]))
        c["thr"][0] = draw(st.sampled_from([2.0, 1.5, 3.0]))
    return c


def build(case, cores="none"):
    from stcal.jump.jump_class import JumpData
    c = own(case)
    exp = _NS(nframes=case["nframes"])
    if case["pattern"] is not None:
        exp.read_pattern = case["pattern"]
    model = _NS(data=c["data"], groupdq=c["gdq"], pixeldq=c["pdq"], meta=_NS(exposure=exp))
    jd = JumpData(model, *refs(case), dict(FLAGS))
    jd.set_detection_settings(case["thr"][0], case["thr"][1], case["thr"][2], case["nmax"], case["nmin"], case["four"])
    jd.set_after_jump(*case["after"])
    jd.set_sigma_clipping_info(case["min_groups"], case["min_sig"], case["use_ints"])
    jd.min_diffs_single_pass = case["single"]
    jd.max_cores = cores
    return jd


def call(case, cores="none", ncpu=8, tweak=None):
    from stcal.jump.jump import detect_jumps_data
    jd = build(case, cores)
    if tweak:
        tweak(jd)
    data0 = jd.data.copy()
    with inprocess_pool(ncpu):
        gdq, pdq, ncr, next_ = detect_jumps_data(jd)
    return gdq, pdq, ncr, next_, (np.array_equal(jd.data, data0, equal_nan=True))


# ------------------------------------------------------------------ the model
def diffs(case):
    d = case["data"] * case["gain"]                       # electrons, single precision
    bad = (case["gdq"] & (DNU | SAT)) != 0
    d = np.where(bad, np.float32(np.nan), d)
    dt, nr = timing(case)
    return np.diff(d, axis=1).astype(np.float64) / dt[None, :, None, None]


def timing(case):
    ng = case["data"].shape[1]
    if case["pattern"] is not None:
        t = np.array([np.mean(p) for p in case["pattern"]])
        n = np.array([len(p) for p in case["pattern"]])
        return np.diff(t), n[1:] + n[:-1]
    return np.ones(ng - 1), np.full(ng - 1, 2 * case["nframes"])


def median(v):
    v = sorted(v)
    n = len(v)
    return v[n // 2] if n % 2 else 0.5 * (v[n // 2 - 1] + v[n // 2])


def plan(case):
    """Which method the exposure gets."""
    gdq = case["gdq"]
    ni, ng = gdq.shape[:2]
    allbad = np.array([[((gdq[i, g] & DNU) != 0).all() for g in range(ng)] for i in range(ni)])
    usable = ng - allbad.sum(1)
    minu, total = int(usable.min()), int(usable.sum())
    enough_sig = ni >= case["min_sig"] if case["use_ints"] else total >= case["min_sig"]
    if minu < case["min_groups"] and not enough_sig:
        return "none"
    dt, nr = timing(case)
    even = case["pattern"] is None or (np.std(dt) == 0 and np.std(nr) == 0)
    if even and enough_sig:
        return "sigclip"
    return "single" if minu - 1 >= case["single"] else "iterative"


class Model:
    def __init__(self, case):
        self.c = case
        self.ni, self.ng, self.nr, self.nc = case["data"].shape
        self.D = diffs(case)
        self.dt, self.nreads = timing(case)
        self.fragile = np.zeros((self.nr, self.nc), bool)
        self.method = plan(case)
        self.rn2 = (case["rn"].astype(float) * case["gain"].astype(float))**2
        self.flags = case["gdq"].astype(int).copy()
        self.reset = False
        if self.method != "none":
            for y in range(self.nr):
                for x in range(self.nc):
                    self.pixel(y, x)
            self.before = self.flags.copy()
            if self.method == "sigclip":
                self.undo_full()
        self.primary = int(((self.flags & JUMP) != 0).sum()) if self.method != "none" else -99

    def sigma(self, med, y, x, k):
        v = abs(med) * self.dt[k] + self.rn2[y, x] / (0.5 * self.nreads[k])
        s = math.sqrt(v) / self.dt[k] if v == v else math.nan
        return s if s != 0 else math.nan

    def near(self, y, x, a, b, slack=0.0):
        if abs(a - b) <= 1e-4 * abs(b) + slack:
            self.fragile[y, x] = True

    def pixel(self, y, x):
        D = self.D[:, :, y, x]
        vals = {(i, k): float(D[i, k]) for i in range(self.ni) for k in range(self.ng - 1) if D[i, k] == D[i, k]}
        found = getattr(self, "px_" + self.method)(vals, y, x)
        for i, k in found:
            self.flags[i, k + 1, y, x] |= JUMP

    def px_single(self, vals, y, x):
        if not vals:
            return []
        med = median(vals.values())
        out = []
        for (i, k), v in vals.items():
            s = self.sigma(med, y, x, k)
            if s != s:
                continue
            r = abs(v - med) / s
            self.near(y, x, r, self.c["thr"][0])
            if r > self.c["thr"][0]:
                out.append((i, k))
        return out

    def px_iterative(self, vals, y, x):
        vals = {k: abs(v) for k, v in vals.items()}
        out = []
        first = True
        while len(vals) >= 2:
            n = len(vals)
            v = sorted(vals.values())
            med = median(v[:-1]) if n >= 4 else (median(v) if n == 3 else v[0])
            thr = self.c["thr"][0] if n >= 4 else self.c["thr"][2] if n == 3 else self.c["thr"][1]
            rat = {}
            slack = 0.0
            for (i, k), a in vals.items():
                s = self.sigma(med, y, x, k)
                if s == s:
                    rat[i, k] = abs(a - med) / s
                    slack = max(slack, 1e-6 * med / s)
            if not rat:
                break
            top = max(rat.values())
            self.near(y, x, top, thr, slack)
            if not top > thr:
                break
            tied = [k for k, r in rat.items() if r >= top * (1 - 1e-5) - slack]
            if len(set(vals[k] for k in tied)) > 1 or len(set(self.sigma(med, y, x, k[1]) for k in tied)) > 1:
                self.fragile[y, x] = True
            for k in tied:
                out.append(k)
                del vals[k]
            first = False
        return out

    def px_sigclip(self, vals, y, x):
        sets = [list(vals)] if not self.c["use_ints"] else [[k for k in vals if k[1] == g] for g in range(self.ng - 1)]
        out = []
        for keys in sets:
            every = keys = list(keys)
            lo = hi = None
            for it in range(5):
                if not keys:
                    break
                v = [vals[k] for k in keys]
                med = median(v)
                mean = math.fsum(v) / len(v)
                lim = self.c["thr"][0] * math.sqrt(math.fsum((q - mean)**2 for q in v) / len(v))
                if len(set(v)) == 1:
                    lim = 0.0
                lo, hi = med - lim, med + lim
                for k in every:
                    if lim and min(abs(vals[k] - lo), abs(vals[k] - hi)) <= 1e-6 * (lim + abs(med)) + 1e-9:
                        self.fragile[y, x] = True
                left = [k for k in keys if lo <= vals[k] <= hi]
                if len(left) == len(keys):
                    break
                keys = left
            # the decision is made with the last limits
            out += [k for k in every if not lo <= vals[k] <= hi]
        return out

    def undo_full(self):
        """A group in which every pixel is a jump (or unusable) is not an outlier after all."""
        for i in range(self.ni):
            for g in range(self.ng):
                f = self.flags[i, g]
                if ((f & (JUMP | DNU)) != 0).all():
                    self.reset |= bool((f == JUMP).any())
                    f[f == JUMP] = 0
                elif self.fragile.any() and ((f & (JUMP | DNU)) != 0)[~self.fragile].all():
                    self.fragile[:] = True

    def spread(self):
        """Neighbours, then following groups; returns the final flags and the pixels they are certain for."""
        c = self.c
        out = self.flags.copy()
        sure = ~self.fragile
        if self.method != "none":
            unus = (c["gdq"] & (DNU | SAT)) != 0
            med = np.full((self.nr, self.nc), np.nan)
            for y in range(self.nr):
                for x in range(self.nc):
                    v = self.D[:, :, y, x]
                    v = v[v == v]
                    if len(v):
                        med[y, x] = median(v.tolist())
            if c["four"]:
                for i in range(self.ni):
                    for g in range(1, self.ng):
                        for y in range(self.nr):
                            for x in range(self.nc):
                                nb = [(y + a, x + b) for a, b in ((0, 1), (0, -1), (1, 0), (-1, 0))
                                      if 0 <= y + a < self.nr and 0 <= x + b < self.nc]
                                if self.fragile[y, x]:
                                    for p in nb:
                                        sure[p] = False
                                    continue
                                if not self.flags[i, g, y, x] & JUMP:
                                    continue
                                s = self.sigma(med[y, x], y, x, g - 1)
                                r = abs(self.D[i, g - 1, y, x] - med[y, x]) / s if s == s else math.nan
                                for lim in (c["nmin"], c["nmax"]):
                                    if abs(r - lim) < 1e-5 * lim:
                                        for p in nb:
                                            sure[p] = False
                                if c["nmin"] < r < c["nmax"]:
                                    for p in nb:
                                        if not unus[(i, g) + p]:
                                            out[(i, g) + p] |= JUMP
            gains = c["gain"][~np.isnan(c["gain"])].astype(float)
            mg = float(np.float32(median(gains.tolist()))) if len(gains) else math.nan
            src = out.copy()
            for dn, n in (c["after"][:2], c["after"][2:]):
                lim = dn * mg
                for i in range(self.ni):
                    for g in range(1, self.ng):
                        for y in range(self.nr):
                            for x in range(self.nc):
                                if n <= 0 or not src[i, g, y, x] & JUMP:
                                    continue
                                amp = (self.D[i, g - 1, y, x] - med[y, x]) * self.dt[g - 1]
                                if abs(amp - lim) < 1e-5 * max(abs(lim), abs(med[y, x]), 1e-3) and not (amp == lim == 0):
                                    sure[y, x] = False
                                if amp >= lim:
                                    for h in range(g + 1, min(self.ng, g + n + 1)):
                                        if not unus[i, h, y, x]:
                                            out[i, h, y, x] |= JUMP
        # a jump flag adds nothing to an unusable or saturated sample
        un = (out & (DNU | SAT)) != 0
        out = np.where(un, out & ~JUMP, out)
        return out, sure


def expected_pdq(case):
    bad = np.isnan(case["gain"]) | (case["gain"] <= 0)
    return np.where(bad, case["pdq"] | NGV | DNU, case["pdq"])

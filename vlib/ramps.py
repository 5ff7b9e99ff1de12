"""Generators of ramp-fitting cases and the calling convention of the ramp fitter."""
import math
import numpy as np
from hypothesis import strategies as st
from .gen import flagcube, raw16, own, raw8, refs, table, uniform, weighted

DQ = {"GOOD": 0, "DO_NOT_USE": 1, "SATURATED": 2, "JUMP_DET": 4, "PERSISTENCE": 32, "CHARGELOSS": 128,
      "NO_GAIN_VALUE": 2**19, "UNRELIABLE_SLOPE": 2**24}
DNU, SAT, JUMP, PERS, CHLOSS, NOGAIN = 1, 2, 4, 32, 128, 2**19
GROUP_FLAGS = [JUMP, JUMP, JUMP, DNU, DNU, SAT, SAT, JUMP | DNU, SAT | DNU, PERS, DNU | 64, JUMP | PERS, 8]


@st.composite
def ramp_cases(draw, max_samples=1400, max_groups=20, max_ints=4, min_groups=1, chargeloss=False, zeroframe=None,
               suppress=None, big=False, flag_sets=None, miri=True, min_pix=1, min_rows=1, pers=True, early=False):
    ngroups = draw(st.integers(min_groups, max_groups))
    nints = draw(st.integers(1, max_ints))
    npix_max = max(min_pix, min(24, max_samples // (ngroups * nints)))
    nrows = draw(st.integers(min_rows, max(min_rows, min(8, npix_max))))
    ncols = draw(st.integers(1, max(1, npix_max // nrows)))
    shape = (nints, ngroups, nrows, ncols)
    nframes = draw(st.sampled_from([1, 1, 2, 4, 8, 5]))
    groupgap = draw(st.sampled_from([0, 0, 1, 2, 4]))
    frame_time = draw(st.sampled_from([1.0, 0.05, 2.775, 10.73677, 53.7]))
    group_time = (nframes + groupgap) * frame_time
    drop = draw(st.sampled_from([None, 0, 1, 3]))
    # per pixel flux scale (DN per group), and noise
    scale = table(draw, (nrows, ncols), [10.0, 0.3, 2.0, 50.0, 400.0, 3000.0, 0.0, -3.0])
    noise = draw(st.sampled_from([1.0, 0.0, 5.0, 30.0]))
    bias = draw(st.sampled_from([0.0, 10.0, 1500.0]))
    z = raw8(draw, nints * ngroups * nrows * ncols).reshape(shape).astype(float)
    incr = scale[None, None] * (1 + (z % 16 - 7.5) / 40.0) + (z - 127.5) / 64.0 * noise
    # steps (cosmic rays, bad samples)
    steps = flagcube(draw, shape, [50.0, 500.0, 5000.0, -200.0], draw(st.sampled_from([0, 0, 12, 60])))
    data = (bias + np.cumsum(incr + steps, axis=1)).astype(np.float32)
    # flags
    kind = draw(weighted((2, "sparse"), (2, "dense"), (1, "none"), (2, "jumps"), (1, "chaos"), (2, "blocks")) if not early
                else weighted((2, "early"), (2, "early_dense"), (1, "dense")))
    choices = GROUP_FLAGS if flag_sets is None else flag_sets
    if not pers:
        choices = [c for c in choices if not c & PERS]
    mono = True
    if kind == "none":
        gdq = np.zeros(shape, dtype=np.uint8)
    elif kind == "sparse":
        gdq = flagcube(draw, shape, choices, 30)
    elif kind == "dense":
        gdq = flagcube(draw, shape, choices, 120)
    elif kind == "jumps":
        gdq = flagcube(draw, shape, [JUMP], 90)
    elif kind == "chaos":
        gdq = flagcube(draw, shape, choices + [255, 7, 6], 200)
        mono = draw(st.booleans())
    elif kind == "blocks":
        # runs: start/stop of bad stretches per pixel
        gdq = flagcube(draw, shape, choices, 25)
        n1 = raw8(draw, nints * nrows * ncols).reshape(nints, 1, nrows, ncols).astype(int) * (ngroups + 1) // 256
        v1 = table(draw, (nints, 1, nrows, ncols), [0, 0, DNU, JUMP, SAT])
        g = np.arange(ngroups)[None, :, None, None]
        gdq = gdq | np.where(g >= ngroups - n1, v1, 0)
        n0 = raw8(draw, nints * nrows * ncols).reshape(nints, 1, nrows, ncols).astype(int)
        gdq = gdq | np.where(g < (n0 - 170).clip(0) * (ngroups + 1) // 86, DNU, 0)
    else:  # early saturation
        gdq = flagcube(draw, shape, choices, 20 if kind == "early" else 90)
        first = raw8(draw, nints * nrows * ncols).reshape(nints, 1, nrows, ncols).astype(int)
        first = np.array([0, 1, 1, 2, 3, 99, 0, 1])[first % 8]
        g = np.arange(ngroups)[None, :, None, None]
        gdq = gdq | np.where(g >= first, SAT, 0)
    gdq = np.array(gdq, dtype=np.int64)
    if mono:
        gdq |= np.where(np.cumsum(gdq & SAT, axis=1) > 0, SAT, 0)
    if chargeloss:
        cl = flagcube(draw, shape, [CHLOSS | DNU], draw(st.sampled_from([0, 40, 120, 200])))
        gdq = np.where((gdq == 0) & (cl > 0), cl, gdq)
    gdq = gdq.astype(np.uint8)
    pdq = flagcube(draw, (nrows, ncols), [DNU, 1024, 2**30, SAT, JUMP, PERS, 2**10 + 1, 2**24], draw(st.sampled_from([0, 0, 40, 120]))).astype(np.uint32)
    gain = table(draw, (nrows, ncols), [1.0, 1.0, 4.0, 1.7, 0.5, 2.05]).astype(np.float32)
    badgain = flagcube(draw, (nrows, ncols), [1, 2, 3], draw(st.sampled_from([0, 0, 30])))
    gain = np.where(badgain == 1, 0.0, np.where(badgain == 2, -1.5, np.where(badgain == 3, np.nan, gain))).astype(np.float32)
    rn = table(draw, (nrows, ncols), [10.0, 3.0, 15.5, 40.0, 0.8, 250.0]).astype(np.float32)
    dark = table(draw, (nrows, ncols), [0.0, 0.0, 0.01, 0.5, 3.0]).astype(np.float32) \
        if draw(st.booleans()) else np.zeros((nrows, ncols), np.float32)
    usez = draw(st.booleans()) if zeroframe is None else zeroframe
    zf = None
    if usez:
        zf = table(draw, (nints, nrows, ncols), [0.0, 100.0, 3.5, 2500.0, 40000.0, -20.0, 0.0, 777.0]).astype(np.float32)
    name = draw(st.sampled_from(["NIRCam", "NIRSpec"] + (["MIRI"] if miri else [])))
    if name == "MIRI" and draw(st.integers(0, 3)):       # groups that are unusable everywhere
        lead = min(draw(st.sampled_from([0, 1, 1, 2, 3, 1])), ngroups)
        gdq[:, :lead] |= DNU
        if draw(st.booleans()):
            gdq[:, -1] |= DNU
    sup = draw(st.sampled_from([False, False, True])) if suppress is None else suppress
    return {"data": data, "gdq": gdq, "pdq": pdq, "gain": gain, "rn": rn, "dark": dark, "zf": zf,
            "frame_time": frame_time, "group_time": group_time, "nframes": nframes, "groupgap": groupgap,
            "drop": drop, "name": name, "suppress": sup, "chargeloss": bool(chargeloss)}


class _NS:
    pass


def make_model(case):
    """A stand-in for the JWST data model, as ramp_fit() documents it."""
    class M:
        def hasattr(self, n):
            return getattr(self, n, None) is not None
    m, c = M(), own(case)
    m.data = c["data"]
    m.groupdq = c["gdq"]
    m.pixeldq = c["pdq"]
    m.average_dark_current = c["dark"]
    if case["zf"] is not None:
        m.zeroframe = c["zf"]
    m.meta = _NS()
    m.meta.instrument = _NS()
    m.meta.instrument.name = case["name"]
    e = m.meta.exposure = _NS()
    e.frame_time, e.group_time = case["frame_time"], case["group_time"]
    e.groupgap, e.nframes = case["groupgap"], case["nframes"]
    e.drop_frames1 = case["drop"]
    if case.get("read_times") is not None:
        e.read_times = case["read_times"]
    return m


def call_ramp_fit(case, algorithm="OLS_C", save_opt=False, max_cores="none", model=None):
    from stcal.ramp_fitting.ramp_fit import ramp_fit
    m = model or make_model(case)
    return ramp_fit(m, save_opt, *refs(case)[::-1], algorithm, "optimal", max_cores, dict(DQ),
                    suppress_one_group=case["suppress"])


# ------------------------------------------------------------------ in-process pool
class FakePool:
    """Runs the pool's tasks in this process, through a pickle round trip like a real one."""
    def __init__(self, processes=None, *a, **k):
        self.processes = processes

    def _go(self, fn, args):
        import pickle
        fn2, a2 = pickle.loads(pickle.dumps((fn, args)))
        return pickle.loads(pickle.dumps(fn2(*a2)))

    def starmap(self, fn, it, chunksize=None):
        return [self._go(fn, tuple(a)) for a in it]

    def map(self, fn, it, chunksize=None):
        return [self._go(fn, (a,)) for a in it]

    def imap(self, fn, it, chunksize=None):
        return iter(self.map(fn, it))

    def close(self):
        pass

    join = terminate = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class FakeCtx:
    Pool = FakePool


class inprocess_pool:
    """Context manager: multiprocessing pools run in-process, and `cores` CPUs are reported."""
    def __init__(self, cores):
        self.cores = cores

    def __enter__(self):
        import multiprocessing
        import sys
        self.saved = []

        def patch(obj, name, val):
            self.saved.append((obj, name, getattr(obj, name)))
            setattr(obj, name, val)
        ctxf = lambda *a, **k: FakeCtx()
        cpu = lambda: self.cores
        orig_ctx, orig_cpu, orig_pool = multiprocessing.get_context, multiprocessing.cpu_count, multiprocessing.Pool
        patch(multiprocessing, "get_context", ctxf)
        patch(multiprocessing, "cpu_count", cpu)
        patch(multiprocessing, "Pool", FakePool)
        for name, mod in list(sys.modules.items()):
            if name.startswith("stcal") and mod is not None:
                for attr, val in list(vars(mod).items()):
                    if val is orig_cpu or getattr(val, "__name__", "") == "cpu_count" and callable(val):
                        patch(mod, attr, cpu)
                    elif attr == "get_context":
                        patch(mod, attr, ctxf)
                    elif attr == "Pool":
                        patch(mod, attr, FakePool)
        return self

    def __exit__(self, *a):
        for obj, name, val in reversed(self.saved):
            setattr(obj, name, val)
        return False

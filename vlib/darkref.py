"""Generator and reference model of dark subtraction."""
from types import SimpleNamespace as NS
import numpy as np
from hypothesis import strategies as st
from .gen import own, flagcube, table, uniform


@st.composite
def dark_cases(draw, kind=None):
    """kind: match, average, skip or None"""
    kind = kind or draw(st.sampled_from(["match", "average", "average", "skip"]))
    ni, ng = draw(st.integers(1, 5)), draw(st.integers(1, 6))
    nr, nc = draw(st.integers(1, 3)), draw(st.integers(1, 4))
    dnf, dgap = 1, 0
    if kind == "average":
        nf, gap = draw(st.sampled_from([(1, 1), (2, 0), (4, 0), (4, 1), (8, 2), (1, 3), (3, 5), (8, 12)]))
    elif kind == "match":
        nf, gap = draw(st.sampled_from([(1, 0), (1, 0), (4, 1), (2, 3), (8, 0)]))
        dnf, dgap = nf, gap
    else:
        nf, gap = draw(st.sampled_from([(1, 0), (2, 1), (4, 0), (1, 5)]))
        dnf, dgap = draw(st.sampled_from([(nf + 1, gap), (nf, gap + 1), (nf + 3, gap + 2), (nf + 1, max(0, gap - 1)), (max(1, nf - 1), gap + 1)]))
    need = ng * nf + (ng - 1) * gap if kind == "average" else ng
    dg = max(2, need + draw(st.sampled_from([0, 0, 1, 5, -1, -3, -10])))
    four = draw(st.booleans())
    dn = draw(st.integers(1, 4)) if four else 1
    start = draw(st.sampled_from([None, 1, 1, 2, 3, 4, 7])) if four else draw(st.sampled_from([None, 1, 3]))
    dt = draw(st.sampled_from([np.float32, np.float64]))
    dark = np.cumsum(uniform(draw, (dn, dg, nr, nc), 0.0, 4.0), axis=1) + table(draw, (dn, 1, nr, nc), [0.0, 10.0, -3.0])
    nan = draw(st.sampled_from([0, 0, 20, 80]))
    dark[flagcube(draw, dark.shape, [1], nan) == 1] = np.nan
    ddq = flagcube(draw, (dn, 1, nr, nc), [1, 2048, 2**30, 64], draw(st.sampled_from([0, 80]))).astype(np.uint32)
    if not four:
        dark, ddq = dark[0], ddq[0, 0]
    sci = uniform(draw, (ni, ng, nr, nc), -50.0, 20000.0)
    sci[flagcube(draw, sci.shape, [1], draw(st.sampled_from([0, 20]))) == 1] = np.nan
    return {"sci": sci.astype(dt), "gdq": flagcube(draw, sci.shape, [1, 2, 4], 40).astype(np.uint8),
            "pdq": flagcube(draw, (nr, nc), [1, 2, 1024], draw(st.sampled_from([0, 80]))).astype(np.uint32),
            "nf": nf, "gap": gap, "start": start, "dark": dark.astype(dt), "ddq": ddq, "dnf": dnf, "dgap": dgap,
            "unit": draw(st.booleans()), "out": draw(st.sampled_from([None, "avg.fits"])), "kind": kind}


def call(case):
    from stcal.dark_current.dark_sub import do_correction
    from astropy import units as u
    c = own(case)
    exp = NS(nframes=c["nf"], groupgap=c["gap"])
    if c["start"] is not None:
        exp.integration_start = c["start"]
    q = (lambda a: a << u.DN) if c["unit"] else (lambda a: a)
    sci = NS(data=q(c["sci"]), groupdq=c["gdq"], pixeldq=c["pdq"], meta=NS(exposure=exp))
    dark = NS(data=q(c["dark"]), dq=c["ddq"], meta=NS(exposure=NS(nframes=c["dnf"], ngroups=c["dark"].shape[-3], groupgap=c["dgap"])))
    out, avg = do_correction(sci, dark, c["out"])
    same = all(np.array_equal(c[k], case[k], equal_nan=k == "sci") for k in ("sci", "gdq", "pdq"))
    return out, avg, same


def used_dark(case):
    """Dark matched to the science groups: (integrations, groups, rows, columns), in double precision."""
    d = case["dark"].astype(np.float64)
    d = d[None] if d.ndim == 3 else d
    ng, nf, gap = case["sci"].shape[1], case["nf"], case["gap"]
    match = (case["dnf"], case["dgap"]) == (nf, gap)
    frames = [[g] for g in range(ng)] if match else [[g * (nf + gap) + k for k in range(nf)] for g in range(ng)]
    n = d.shape[1]

    def frame(k):
        f = d[:, k] if k < n else d[:, n - 1] + (k - n + 1) * (d[:, n - 1] - d[:, n - 2])
        return np.where(np.isnan(f), 0.0, f)
    return np.stack([sum(frame(k) for k in fs) / len(fs) for fs in frames], axis=1)

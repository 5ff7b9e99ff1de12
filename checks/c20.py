import numpy as np
from hypothesis import strategies as st
from vlib.core import Component, check, close, equal
from vlib.gen import table, uniform
from vlib.linref import SAT, bad_pixels, call, expected_read, expected_simple, ident, lin_cases

RULE = ("random ramps, read patterns, coefficient pairs, caps and additional corrections compared with a read-by-read model, tall images, other tile heights, "
        "and constant-rate sources seen through exactly inverted polynomials; non-trivial when a group averages several reads of a corrected pixel; distinct by content")


def run(case):
    data, _, _ = call(case)
    want, mag = expected_read(case)
    bad = bad_pixels(case)
    eps = max(np.finfo(case["data"].dtype).eps, np.finfo(case["lin"].dtype).eps)
    close(data, want, "corrected ramp", rtol=0, atol=20 * eps * mag)
    labels = [f"{case['data'].dtype}", "capped" if case["satval"] is not None else "no cap", str(case["extra"])]
    good = ~bad[None, None] & ((case["gdq"] & SAT) == 0)
    many = np.array([len(p) > 1 for p in case["pattern"]])[None, :, None, None]
    if case["satval"] is None and case["extra"] is None:      # single reads: the ordinary correction
        w, m = expected_simple(case["data"], case["gdq"], ident(case["lin"], bad))
        close(data, w, "groups of a single read", rtol=0, atol=eps * (20 * mag + 4 * m), mask=~many & np.ones(data.shape, bool))
    return bool((good & many).any()), labels


def run_tall(case):
    nt, labels = run(case)
    for tile in (1, 37, case["data"].shape[2], 1000):
        other = call(case, tile=tile)
        eps = max(np.finfo(case["data"].dtype).eps, np.finfo(case["lin"].dtype).eps)
        if tile != 1:
            close(other, first, f"tiles of {tile} rows", rtol=0, atol=20 * eps * expected_read(case)[1])
        else:
            first = other
    return nt, labels


@st.composite
def sources(draw):
    ng, nr, nc = draw(st.integers(3, 7)), draw(st.integers(1, 3)), draw(st.integers(1, 6))
    pat, t = [], 1
    m = draw(st.sampled_from([2, 4, 8, 10, 3]))
    for g in range(ng):
        k = 1 if g == 0 and draw(st.booleans()) else m
        pat.append(list(range(t, t + k)))
        t += k + draw(st.sampled_from([0, 0, 2]))
    last = pat[-1][-1]
    a = uniform(draw, (nr, nc), 0.5e-6, 2.5e-6)                    # true = d + a d^2
    full = uniform(draw, (nr, nc), 20000.0, 50000.0)
    nsat = table(draw, (nr, nc), [0, 0, 1, 2])
    return {"pattern": pat, "a": a, "rate": full / last, "nsat": nsat}


def run_source(case):
    """A steady source seen through a quadratic non-linearity and its (numerically fitted) inverse."""
    from stcal.linearity.linearity import linearity_correction
    from vlib.linref import FLAGS
    pat, a, rate = case["pattern"], case["a"], case["rate"]
    ng, (nr, nc) = len(pat), a.shape
    inv = lambda x: (-1 + np.sqrt(1 + 4 * a * x)) / (2 * a)
    truth = np.stack([np.mean([rate * t for t in p], axis=0) for p in pat])
    seen = np.stack([np.mean([inv(rate * t) for t in p], axis=0) for p in pat])
    lin = np.stack([0 * a, 1 + 0 * a, a])
    # power series of the inverse in x/X by Chebyshev fit
    deg, X = 9, 60000.0
    ilin = np.zeros((deg + 1, nr, nc))
    xs = (1 - np.cos(np.linspace(0, np.pi, 80))) / 2
    for y in range(nr):
        for x in range(nc):
            aa = a[y, x] * X
            c = np.polynomial.polynomial.polyfit(xs, (-1 + np.sqrt(1 + 4 * aa * xs)) / (2 * aa), deg)
            ilin[:, y, x] = c * X / X ** np.arange(deg + 1)
    gdq = np.zeros((1, ng, nr, nc), np.uint8)
    for g in range(ng):
        gdq[0, g][g >= ng - case["nsat"]] = SAT
    out, pdq, _ = linearity_correction(seen[None].copy(), gdq, np.zeros((nr, nc), np.uint32), lin.copy(), np.zeros((nr, nc), np.uint32), FLAGS,
                                       ilin_coeffs=ilin.copy(), read_pattern=pat)
    simple = seen + a * seen ** 2
    ok = gdq[0] == 0
    usable = (ok.sum(0) - 1 >= 2)[None] & ok
    err = np.abs(out[0] - truth)
    # what the ordinary correction leaves: a * variance of the reads in a group; this one leaves a small fraction of its largest value
    left = np.abs(simple - truth)
    scale = left.max(axis=0, keepdims=True)
    ratio = np.where(usable, err / (scale + 1e-3), 0)
    check(ratio.max() < BOUND, lambda: f"ramp of a steady source is off by {ratio.max():.3f} of what averaging alone does to it")
    check(np.abs(pdq).max() == 0, "pixels were flagged")
    return bool(usable.any() and (scale > 1).any()), ["some saturated" if case["nsat"].any() else "none saturated"]


BOUND = 0.05      # measured: at most 0.013
COMPONENTS = [Component("model", lambda: lin_cases(read=True, max_pix=30), run, quick=1000, thorough=25000, shards=8),
              Component("tall", lambda: lin_cases(read=True, tall=True), run_tall, quick=80, thorough=1500, shards=4),
              Component("steady-source", sources, run_source, quick=300, thorough=8000, shards=4)]

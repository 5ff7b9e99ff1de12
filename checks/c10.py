import numpy as np
from vlib.cas22 import Pattern, call, cas_cases, combine, fit_run, runs
from vlib.core import Component, check, close, equal

RULE = ("random read patterns (1-25 reads per resultant, gaps), fluxes, read noises and flags; each pixel compared with the closed form "
        "evaluated in double precision; non-trivial when a pixel has two or more runs or uneven resultants; distinct by content")


def run(case, jump=False):
    p, v, q = call(case, False)
    pat = Pattern(case["reads"], case["rt"])
    equal(q.astype(np.int64), case["dq"].astype(np.int64), "flags without jump detection")
    check(not p[:, 0].any(), "an intercept is reported")
    multi = skipped = False
    for i in range(case["res"].shape[1]):
        y = case["res"][:, i].astype(float)
        rr = runs(case["dq"][:, i] == 0)
        multi |= sum(b > a for a, b in rr) > 1
        fits = [fit_run(pat, y, float(case["rn"][i]), a, b) for a, b in rr]
        if any(f is not None and f[4] for f in fits):
            skipped = True
            continue
        verify(i, p, v, combine(fits))
    uneven = len(set(len(r) for r in case["reads"])) > 1
    return multi or (uneven and len(case["reads"]) > 2), [case["layout"], "split" if multi else "whole"] + (["near a power limit, skipped"] if skipped else [])


def verify(i, p, v, ref):
    if len(ref) == 5:
        check(p[i, 1] == 0 and not v[i].any(), f"pixel {i} has no usable run, but slope {p[i, 1]} and variances {v[i].tolist()}")
        return
    s, rv, pv, mag, cond, pm = ref
    rel = 2e-5 + 1e-6 * cond
    close(np.float64(p[i, 1]), s, f"slope of pixel {i}", rtol=rel, atol=2e-6 * mag + rel * mag * 1e-2)
    close(np.float64(v[i, 0]), rv, f"read-noise variance of pixel {i}", rtol=4 * rel)
    want = pv * max(float(p[i, 1]), 0.0)
    close(np.float64(v[i, 1]), want, f"Poisson variance of pixel {i}", rtol=4 * rel, atol=1e-6 * pm * max(float(p[i, 1]), 0.0) + 1e-30)
    close(np.float64(v[i, 2]), float(v[i, 0]) + float(v[i, 1]), f"total variance of pixel {i}", rtol=1e-5)


def run_order(case):
    """Pixels do not see each other: any arrangement gives each its own result."""
    case = dict(case, layout="2d")
    jump = case["jump"]
    p, v, q = call(case, jump)
    perm = np.array(case["perm"])
    c2 = dict(case, res=case["res"][:, perm], dq=case["dq"][:, perm], rn=case["rn"][perm])
    p2, v2, q2 = call(c2, jump)
    equal(p2, p[perm], "slopes of rearranged pixels")
    equal(v2, v[perm], "variances of rearranged pixels")
    equal(q2, q[:, perm], "flags of rearranged pixels")
    return len(perm) > 1, ["jumps" if jump else "no jumps"]


def order_cases():
    from hypothesis import strategies as st

    @st.composite
    def f(draw):
        c = draw(cas_cases(jumps=draw(st.booleans())))
        n = c["res"].shape[1]
        c["perm"] = [draw(st.integers(0, n - 1)) for _ in range(draw(st.integers(1, 2 * n)))]
        return c
    return f()


COMPONENTS = [Component("closed-form", lambda: cas_cases(), run, quick=4000, shards=8, crashy=True),
              Component("arrangement", order_cases, run_order, quick=600, shards=4, crashy=True)]

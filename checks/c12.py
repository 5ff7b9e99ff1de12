import numpy as np
from vlib.core import Component, check, equal
from vlib.jumpref import DNU, JUMP, Model, SAT, call, expected_pdq, jump_cases

RULE = ("random ramps with steps, ties, saturation, unusable samples, whole unusable groups, bad gains, even and uneven read patterns "
        "and all three detection methods; non-trivial when some but not all usable groups are flagged; distinct by content")


def run(case):
    m = Model(case)
    want, sure = m.spread()
    gdq, pdq, ncr, _, same = call(case)
    equal(np.broadcast_to(pdq, pdq.shape).astype(np.int64), expected_pdq(case).astype(np.int64), "pixel flags")
    check(sure.any() or m.fragile.any(), "internal")
    diff = (gdq.astype(int) != want) & sure
    if diff.any():
        i, g, y, x = np.argwhere(diff)[0].tolist()
        check(False, f"{m.method}: flags of pixel ({y},{x}) integration {i} are {gdq[i, :, y, x].tolist()}, expected {want[i, :, y, x].tolist()}")
    if not m.fragile.any():
        check(ncr == m.primary, f"{ncr} primary jumps reported, expected {m.primary}")
    fl = (want & JUMP) != 0
    un = (case["gdq"] & (DNU | SAT)) != 0
    return bool(fl.any() and (~fl & ~un).any()), [m.method, case["mode"]] + (["fragile pixel skipped"] if m.fragile.any() else []) + (["all-jump group undone"] if m.reset else [])


def run_alone(case):
    """The decision for a pixel does not depend on the other pixels or on where it is."""
    gdq0 = case["gdq"]
    rng = np.random.default_rng(case["perm_seed"])
    nr, nc = gdq0.shape[2:]
    a = call(case)[0]
    perm = rng.permutation(nr * nc)

    def shuffle(arr):
        return arr.reshape(arr.shape[:-2] + (-1,))[..., perm].reshape(arr.shape[:-2] + (nc, nr))
    c2 = dict(case, **{k: shuffle(case[k]) for k in ("data", "gdq", "pdq", "gain", "rn")})
    b = call(c2)[0]
    equal(b.astype(int), shuffle(a).astype(int), "flags of rearranged pixels")
    # part of the image, when that leaves the choice of method alone
    k = 1 + case["perm_seed"] % nc
    c3 = dict(case, **{n: np.ascontiguousarray(case[n][..., :k]) for n in ("data", "gdq", "pdq", "gain", "rn")})
    from vlib.jumpref import plan
    ok = plan(c3) == plan(case) and plan(case) != "sigclip"
    if ok:
        equal(call(c3)[0].astype(int), a[..., :k].astype(int), "flags of part of the image")
    return bool(nr * nc > 1 and ((a & JUMP) != 0).any()), ["part too" if ok else "rearranged"]


def alone_cases():
    from hypothesis import strategies as st

    @st.composite
    def f(draw):
        c = draw(jump_cases(spread=False))
        c["perm_seed"] = draw(st.integers(0, 10**6))
        return c
    return f()


COMPONENTS = [Component("model", lambda: jump_cases(spread=False), run, quick=3000, thorough=80000, shards=8),
              Component("arrangement", alone_cases, run_alone, quick=600, shards=4)]

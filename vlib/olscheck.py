"""Components comparing the OLS ramp fit with the reference, field by field."""
import numpy as np
from . import olsref
from .core import Component, Violation, check, close, equal
from .ramps import CHLOSS, DNU, JUMP, PERS, SAT, call_ramp_fit, ramp_cases


def tolerance(case):
    d = np.abs(case["data"].astype(float))
    return d


def compare(case, fields, got, ref):
    image, integ, opt = got
    if ref is None:
        check(image is None and integ is None, "a fit was returned although no group is usable anywhere")
        return
    check(image is not None and integ is not None, "no fit was returned although usable groups exist")
    keep = ~ref["ambiguous"]
    tg = case["group_time"]
    dmax = np.nanmax(np.abs(ref["data"].astype(float)), axis=(0, 1))
    if case["zf"] is not None:
        dmax = np.maximum(dmax, np.abs(case["zf"]).max(0) * max(1.0, tg / case["frame_time"]))
    gainok = case["gain"] > 0
    for f in fields:
        if f == "dq":
            equal(np.asarray(integ["dq"]).astype(np.int64), ref["integ"]["dq"], "integration flags")
            equal(np.asarray(image["dq"]).astype(np.int64), ref["image"]["dq"], "exposure flags")
            continue
        at = 2e-6 * dmax / tg if f == "slope" else 1e-12
        if f == "slope":
            close(integ["slope"], ref["integ"]["slope"], "integration slope", rtol=2e-5, atol=at[None], mask=np.broadcast_to(keep, integ["slope"].shape))
            close(image["slope"], ref["image"]["slope"], "exposure slope", rtol=2e-5, atol=at, mask=keep)
        else:
            m = gainok
            close(integ[f], ref["integ"][f], f"integration {f}", rtol=3e-5, atol=at, mask=np.broadcast_to(m, integ[f].shape))
            close(image[f], ref["image"][f], f"exposure {f}", rtol=3e-5, atol=at, mask=m)


def labels(case, ref):
    out = []
    if ref is None:
        return False, ["nothing to fit"]
    nseg = max((len(s) for p in ref["pix"].values() for s in p.segs), default=0)
    spec = any(p.special for p in ref["pix"].values())
    out.append(f"max segments {min(nseg, 5)}{'+' if nseg >= 5 else ''}")
    if spec:
        out.append("rescued ramp")
    if case["suppress"]:
        out.append("suppress one group")
    if case["name"] == "MIRI":
        out.append("MIRI")
    out.append(f"groups {'1' if case['data'].shape[1] == 1 else '2' if case['data'].shape[1] == 2 else '3+'}")
    if ref["ambiguous"].any():
        out.append("pixel near weight limit skipped")
    if (case["gdq"] & CHLOSS).any() and case["chargeloss"]:
        out.append("charge loss")
    return nseg >= 2 or spec, out


def component(name, fields, quick, **kw):
    def run(case):
        ref = olsref.fit(case)
        got = call_ramp_fit(case)
        compare(case, fields, got, ref)
        return labels(case, ref)
    return Component(name, lambda: ramp_cases(**kw), run, quick=quick, shards=8, crashy=True)

import numpy as np
from vlib import olsref
from vlib.core import Component, check, close, equal, same_shape
from vlib.olscheck import compare, labels
from vlib.ramps import call_ramp_fit, ramp_cases

RULE = ("ramp cubes drawn by Hypothesis with optional results requested; non-trivial when a pixel has two or more segments or a "
        "rescued first group / zero frame; distinct by content")


def run(case):
    ref = olsref.fit(case)
    plain = call_ramp_fit(case)
    got = call_ramp_fit(case, save_opt=True)
    if ref is None:
        check(got[0] is None, "a fit was returned although no group is usable anywhere")
        return False, ["nothing to fit"]
    for i, n in ((0, "image"), (1, "integration")):
        for k in plain[i]:
            equal(np.asarray(got[i][k]), np.asarray(plain[i][k]), f"{n} {k} with optional results requested")
    check(plain[2] is None, "optional results returned although not requested")
    opt = got[2]
    check(opt is not None, "no optional results")
    nints, ngroups, nr, nc = ref["used"]
    arrs = {k: np.asarray(opt[k], dtype=float) for k in ("slope", "sigslope", "var_poisson", "var_rnoise", "yint", "sigyint", "weights", "crmag")}
    ped = np.asarray(opt["pedestal"], dtype=float)
    same_shape(ped, np.zeros((nints, nr, nc)), "pedestal")
    names = {"slope": "slope", "sigslope": "sigslope", "var_poisson": "var_p", "var_rnoise": "var_r", "yint": "yint",
             "sigyint": "sigyint", "weights": "weight"}
    nseg = arrs["slope"].shape[1]
    most = max(len(s) for p in ref["pix"].values() for s in p.segs)
    check(nseg >= most, f"{nseg} planes of segments, but a pixel has {most} segments")
    tg = case["group_time"]
    for (r, c), p in ref["pix"].items():
        if not p.valid:
            continue
        dm = max(1e-3, float(np.nanmax(np.abs(ref["data"][:, :, r, c]))), 0 if case["zf"] is None else float(np.abs(case["zf"][:, r, c]).max()))
        for i in range(nints):
            close(ped[i, r, c], p.ped[i], f"pedestal of integration {i} pixel {(r, c)}", rtol=2e-5, atol=4e-6 * dm * (1 + ngroups)) if not p.ambiguous else None
            crs = np.array(p.crmag[i], dtype=float)
            gotcr = arrs["crmag"][i, :, r, c]
            check(len(gotcr) >= len(crs), "missing cosmic-ray magnitudes")
            want = np.zeros(len(gotcr))
            want[:len(crs)] = crs
            close(gotcr, want, f"cosmic-ray magnitudes of integration {i} pixel {(r, c)}", rtol=1e-5, atol=1e-6 * dm)
            segs = p.segs[i]
            for k, key in names.items():
                v = arrs[k][i, :, r, c]
                check(not np.any(v[len(segs):]), f"{k} of integration {i} pixel {(r, c)}: values {v.tolist()} beyond its {len(segs)} segments")
                for s, info in enumerate(segs):
                    if p.ambiguous and key in ("slope", "yint", "sigslope", "sigyint"):
                        continue
                    at = {"slope": 2e-6 * dm / tg * 3, "yint": 2e-5 * dm * (1 + info["a"])}.get(key, 1e-12)
                    w = info[key]
                    if key == "var_r" and not np.isfinite(w) or key == "weight" and not np.isfinite(w):
                        continue
                    close(v[s], w, f"{k} of segment {s} (groups {info['a']}..{info['b'] - 1}) integration {i} pixel {(r, c)}", rtol=1e-4, atol=at)
    return labels(case, ref)


COMPONENTS = [Component("optional", lambda: ramp_cases(), run, quick=1600, shards=8, crashy=True),
              Component("optional-long", lambda: ramp_cases(min_groups=8, max_groups=24, max_ints=3, early=False), run, quick=700, shards=8, crashy=True)]
